package main

// The model of signing: what a signed package looks like.

import (
	"bytes"
	"crypto"
	"fmt"
	"math/rand/v2"
	"sort"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

var strongHashes = []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA224}

// signer describes one signing as it was requested.
type signer struct {
	key      string
	opts     *rpmutils.SignatureOptions
	hash     crypto.Hash
	from, to time.Time // bounds of the creation time, full seconds
}

func (s *signer) String() string {
	return fmt.Sprintf("%s %v %v", s.key, s.hash, s.from.Unix())
}

// begin fixes the bounds of the creation time just before signing with an
// unset time, end just after.
func (s *signer) begin() {
	if s.opts == nil || s.opts.CreationTime.IsZero() {
		s.from = time.Now().Truncate(time.Second)
	}
}

func (s *signer) end() {
	if s.opts == nil || s.opts.CreationTime.IsZero() {
		s.to = time.Now()
	}
}

var signTimes = []int64{0, 1, 1000000000, 1500000000, 1614834367 /* creation of the keys */, 1614834366, 1700000000, 1<<31 - 1, 1 << 31, 4000000000, 1<<32 - 1}

// randSigner picks a key and options.
func randSigner(r *rand.Rand) *signer {
	s := &signer{key: keyNames[r.IntN(len(keyNames))], hash: crypto.SHA256}
	switch r.IntN(6) {
	case 0: // all defaults
		return s
	case 1:
		s.opts = &rpmutils.SignatureOptions{}
		return s
	}
	s.opts = &rpmutils.SignatureOptions{}
	if r.IntN(4) > 0 {
		s.hash = strongHashes[r.IntN(len(strongHashes))]
		s.opts.Hash = s.hash
	}
	if r.IntN(4) > 0 {
		at := time.Unix(signTimes[r.IntN(len(signTimes))], 0)
		if r.IntN(3) == 0 {
			at = time.Unix(int64(r.Uint32()), int64(r.IntN(1e9)))
		}
		if r.IntN(2) == 0 {
			at = at.UTC()
		} else if r.IntN(2) == 0 {
			at = at.In(time.FixedZone("somewhere", r.IntN(80000)-40000))
		}
		s.opts.CreationTime = at
		s.from, s.to = at.Truncate(time.Second), at
	}
	return s
}

// fixedSigner has reproducible options.
func fixedSigner(r *rand.Rand, names ...string) *signer {
	at := time.Unix(1400000000+int64(r.IntN(400000000)), 0)
	s := &signer{key: names[r.IntN(len(names))], hash: strongHashes[r.IntN(len(strongHashes))], from: at, to: at}
	s.opts = &rpmutils.SignatureOptions{Hash: s.hash, CreationTime: at}
	return s
}

// randDigests picks a combination of recorded digests that has to be accepted.
func randDigests(r *rand.Rand) DigestCfg {
	d := okDigests
	d.SHA1, d.SHA256, d.MD5 = []string{"ok", ""}[r.IntN(2)], []string{"ok", "ok", ""}[r.IntN(3)], []string{"ok", ""}[r.IntN(2)]
	d.Algo = []int{8, 8, 8, 1, 2, 9, 10, 11}[r.IntN(8)]
	switch r.IntN(5) {
	case 0:
		d.Payload, d.MD5 = "", "ok"
	case 1: // cannot be used, so the old digest decides
		d.MD5 = "ok"
		if r.IntN(2) == 0 {
			d.NoAlgoTag = true
		} else {
			d.Algo = []int{0, 3, 5, 6, 7, 12, 13, 99}[r.IntN(8)]
		}
	}
	return d
}

// signablePkg makes an intact package, possibly signed before.
func signablePkg(r *rand.Rand) *Pkg {
	d := randDigests(r)
	o := PkgOpt{Digests: &d, Plain: r.IntN(4) == 0}
	switch r.IntN(4) {
	case 0:
		o.MaxFiles, o.Compressor = 5, []string{"gzip", "xz", "zstd", "uncompressed"}[r.IntN(4)]
	case 1:
		o.RawPayload = 1 + r.IntN(200000)
	default:
		o.RawPayload = 1 + r.IntN(2000)
	}
	p := genPkg(r, o)
	if r.IntN(8) == 0 {
		p.Payload = nil // nothing after the headers
		p.Finish(r)
	}
	// room in the signature header
	p.Sig = dropTags(p.Sig, sReserved)
	if r.IntN(3) > 0 {
		k := []int{0, 1, 7, 8, 16, 100, 600, 700, 1000, 1500, 2000, 4128}[r.IntN(12)]
		if r.IntN(3) == 0 {
			k = 500 + r.IntN(1200)
		}
		p.Sig = append(p.Sig, bin(sReserved, make([]byte, k)))
	}
	// further tags, before and after those that signing touches
	for k := r.IntN(4); k > 0; k-- {
		tag := randTagNumber(r, true)
		if findTag(p.Sig, tag) == nil && tag != sReserved {
			p.Sig = append(p.Sig, randHTag(r, tag))
		}
	}
	// earlier signatures
	old := func(full bool) []byte {
		parts := [][]byte{p.GenBytes}
		if full {
			parts = append(parts, p.Payload)
		}
		return makeSig(keyNames[r.IntN(len(keyNames))], crypto.SHA256, time.Unix(1500000000, 0), parts...)
	}
	switch r.IntN(5) {
	case 0:
		p.Sig = append(p.Sig, bin(sRSA, old(false)), bin(sPGP, old(true)))
	case 1:
		p.Sig = append(p.Sig, bin(sDSA, old(false)), bin(sGPG, old(true)))
	case 2:
		for _, tag := range []int{sRSA, sDSA, sPGP, sGPG} {
			if r.IntN(2) == 0 {
				p.Sig = append(p.Sig, bin(tag, old(tag >= 1000)))
			}
		}
	case 3:
		if r.IntN(3) == 0 { // leftovers that are no signatures
			p.Sig = append(p.Sig, bin([]int{sRSA, sDSA, sPGP, sGPG}[r.IntN(4)], randContent(r, r.IntN(100))))
		}
	}
	p.FinishSig(r)
	return p
}

func sigTagsEqual(a, b *refHdr, except ...int) error {
	pick := func(h *refHdr) []refEnt {
		var out []refEnt
	next:
		for _, e := range h.Ents {
			if e.Tag < 64 || e.Tag == sReserved {
				continue
			}
			for _, x := range except {
				if e.Tag == x {
					continue next
				}
			}
			out = append(out, e)
		}
		sort.SliceStable(out, func(i, j int) bool { return out[i].Tag < out[j].Tag })
		return out
	}
	x, y := pick(a), pick(b)
	for i := 0; i < len(x) || i < len(y); i++ {
		switch {
		case i >= len(x) || i < len(y) && y[i].Tag < x[i].Tag:
			return fmt.Errorf("tag %d appeared", y[i].Tag)
		case i >= len(y) || x[i].Tag < y[i].Tag:
			return fmt.Errorf("tag %d is gone", x[i].Tag)
		case x[i].Type != y[i].Type || x[i].Count != y[i].Count || !bytes.Equal(x[i].Data, y[i].Data):
			return fmt.Errorf("tag %d changed: type %d count %d data %.60x became type %d count %d data %.60x",
				x[i].Tag, x[i].Type, x[i].Count, x[i].Data, y[i].Type, y[i].Count, y[i].Data)
		}
	}
	return nil
}

// checkSigned compares a signed package with the one it was made of.
func checkSigned(t *T, what string, orig, out []byte, s *signer) *refPkg {
	a, err := parsePkg(orig)
	t.must(err)
	b, err := parsePkg(out)
	if err != nil {
		t.Fatalf("%s: result is not a package: %v", what, err)
	}
	if !bytes.Equal(a.Lead, b.Lead) {
		t.Errorf("%s: lead changed", what)
	}
	if !bytes.Equal(a.GenRaw, b.GenRaw) {
		t.Errorf("%s: general header changed", what)
	}
	if !bytes.Equal(a.Payload, b.Payload) {
		t.Errorf("%s: payload changed (%d bytes, now %d)", what, len(a.Payload), len(b.Payload))
	}
	if err := wellFormedSig(b.Sig); err != nil {
		t.Errorf("%s: signature header: %v", what, err)
	}
	if err := sigTagsEqual(a.Sig, b.Sig, sRSA, sPGP, sDSA, sGPG); err != nil {
		t.Errorf("%s: signature header: %v", what, err)
	}
	for _, tag := range []int{sDSA, sGPG} {
		if b.Sig.get(tag) != nil {
			t.Errorf("%s: superseded signature %d is still there", what, tag)
		}
	}
	el := ring(s.key)
	for _, tag := range []int{sRSA, sPGP} {
		e := b.Sig.get(tag)
		if e == nil || e.Type != tBin {
			t.Errorf("%s: no signature in tag %d", what, tag)
			continue
		}
		parts := [][]byte{a.GenRaw}
		if tag == sPGP {
			parts = append(parts, a.Payload)
		}
		sig, pk, err := refVerifyBlob(e.Data, el, parts...)
		if err != nil {
			t.Errorf("%s: signature %d is not valid: %v", what, tag, err)
			continue
		}
		if sig.Hash != s.hash || sig.CreationTime.Before(s.from) || sig.CreationTime.After(s.to) || pk.KeyId != key(s.key).Key.KeyId || sig.SigType != 0 {
			t.Errorf("%s: signature %d made with %v at %v by %x type %d, wanted %v at %v-%v by %x", what, tag, sig.Hash, sig.CreationTime.Unix(), pk.KeyId, sig.SigType, s.hash, s.from.Unix(), s.to.Unix(), key(s.key).Key.KeyId)
		}
		t.Event("signatures checked independently")
	}
	return b
}

// checkVerifies runs Verify on a package signed by s.
func checkVerifies(t *T, what string, out []byte, s *signer, el openpgp.EntityList) {
	hdr, sigs, err := rpmutils.Verify(bytes.NewReader(out), el)
	if err != nil {
		t.Fatalf("%s: does not verify: %v", what, err)
	}
	if hdr == nil || len(sigs) != 2 {
		t.Fatalf("%s: %d signatures reported", what, len(sigs))
	}
	for i, g := range sigs {
		if m := sameSig(g, i == 0, s.key, s.hash, s.from, s.to, el != nil); m != "" {
			t.Errorf("%s: signature %d: %s", what, i, m)
		}
	}
	t.Event("packages verified")
}

// sameSig compares a reported signature to what is known about it.
func sameSig(g *rpmutils.Signature, headerOnly bool, name string, hash crypto.Hash, from, to time.Time, known bool) string {
	k := key(name)
	switch {
	case g.HeaderOnly != headerOnly:
		return fmt.Sprintf("header-only is %v", g.HeaderOnly)
	case g.Hash != hash:
		return fmt.Sprintf("hash %v, not %v", g.Hash, hash)
	case g.CreationTime.Before(from) || g.CreationTime.After(to):
		return fmt.Sprintf("time %v not in %v-%v", g.CreationTime.Unix(), from.Unix(), to.Unix())
	case g.KeyId != k.Key.KeyId:
		return fmt.Sprintf("key ID %x, not %x (%s)", g.KeyId, k.Key.KeyId, name)
	case known && g.Signer != k.Entity:
		return "signer is not the entity in the keyring"
	case !known && g.Signer != nil:
		return "a signer is reported without a keyring"
	case known && !bytes.Equal(g.KeyFingerprint, k.Key.Fingerprint):
		return fmt.Sprintf("fingerprint %x, not %x", g.KeyFingerprint, k.Key.Fingerprint)
	case len(g.KeyFingerprint) > 0 && !bytes.Equal(g.KeyFingerprint, k.Key.Fingerprint):
		return fmt.Sprintf("fingerprint %x, not %x", g.KeyFingerprint, k.Key.Fingerprint)
	}
	if known {
		if id := k.Entity.PrimaryIdentity(); id != nil && g.PrimaryName != id.Name {
			return fmt.Sprintf("name %q, not %q", g.PrimaryName, id.Name)
		}
	} else if g.PrimaryName != "" {
		return fmt.Sprintf("name %q without a keyring", g.PrimaryName)
	}
	return ""
}

// splice replaces lead and signature header of a package by a dump.
func splice(data []byte, hdr *rpmutils.RpmHeader, blob []byte) []byte {
	return append(append([]byte{}, blob...), data[hdr.OriginalSignatureHeaderSize():]...)
}
