package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"math/rand/v2"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C18: only supplied keys are trusted and signatures are reported truthfully.

// madeSig is a signature in a package as the model knows it.
type madeSig struct {
	tag  int
	key  string
	hash crypto.Hash
	at   time.Time
	id   int // 0: key ID and fingerprint, 1: only key ID, 2: only fingerprint
	note int // length of a note within the signature, if any
	blob []byte
}

func (m *madeSig) headerOnly() bool { return m.tag < 1000 }

func (m *madeSig) String() string {
	return fmt.Sprintf("%d by %s (%v, %d, identified by %d)", m.tag, m.key, m.hash, m.at.Unix(), m.id)
}

// sign makes the signature packet.
func (m *madeSig) sign(parts ...[]byte) {
	k := *key(m.key).Key
	sig := &packet.Signature{SigType: packet.SigTypeBinary, CreationTime: m.at, PubKeyAlgo: k.PubKeyAlgo, Hash: m.hash, IssuerKeyId: &k.KeyId}
	switch m.id {
	case 1:
		k.Fingerprint = nil
	case 2:
		sig.IssuerKeyId = nil
	case 3:
		sig.IssuerKeyId, k.Fingerprint = nil, nil
	}
	if m.note > 0 {
		sig.Notations = []*packet.Notation{{Name: "note@example.org", Value: bytes.Repeat([]byte("n"), m.note), IsHumanReadable: true}}
	}
	h := m.hash.New()
	for _, p := range parts {
		h.Write(p)
	}
	check(sig.Sign(h, &k, nil))
	var b bytes.Buffer
	check(sig.Serialize(&b))
	m.blob = b.Bytes()
}

// reframe encodes the packet's header in another way.
func reframe(r *rand.Rand, blob []byte) []byte {
	off := 2
	switch {
	case blob[0]&0x40 == 0:
		off = 1 + 1<<(blob[0]&3)
	case blob[1] >= 192 && blob[1] < 224:
		off = 3
	case blob[1] == 255:
		off = 6
	}
	body := blob[off:]
	k := len(body)
	switch r.IntN(5) {
	case 0:
		if k < 256 {
			return append([]byte{0x88, byte(k)}, body...)
		}
		fallthrough
	case 1:
		if k < 1<<16 {
			return append([]byte{0x89, byte(k >> 8), byte(k)}, body...)
		}
		fallthrough
	case 2:
		return append(binary.BigEndian.AppendUint32([]byte{0x8a}, uint32(k)), body...)
	case 3:
		return append(binary.BigEndian.AppendUint32([]byte{0xc2, 255}, uint32(k)), body...)
	}
	return blob
}

// sigPkg makes a package with the given signatures over the right or (for
// unverified use) wrong data.
func sigPkg(r *rand.Rand, sigs []*madeSig, wrong bool) *Pkg {
	d := randDigests(r)
	p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(3000), Digests: &d})
	for _, m := range sigs {
		parts := [][]byte{p.GenBytes}
		if !m.headerOnly() {
			parts = append(parts, p.Payload)
		}
		if wrong {
			parts = append(parts, []byte("more"))
		}
		m.sign(parts...)
		if r.IntN(4) == 0 {
			m.blob = reframe(r, m.blob)
		}
		p.Sig = append(p.Sig, bin(m.tag, m.blob))
	}
	p.FinishSig(r)
	return p
}

func randSigs(r *rand.Rand, max int) []*madeSig {
	var out []*madeSig
	tags := []int{sRSA, sDSA, sPGP, sGPG}
	r.Shuffle(4, func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	for _, tag := range tags[:1+r.IntN(max)] {
		m := &madeSig{tag: tag, key: keyNames[r.IntN(len(keyNames))], hash: append(strongHashes, crypto.SHA1)[r.IntN(5)], id: []int{0, 0, 1, 2}[r.IntN(4)]}
		if r.IntN(6) == 0 {
			m.note = []int{1, 100, 500, 2000, 9000, 20000, 65000}[r.IntN(7)] + r.IntN(200)
		}
		m.at = time.Unix(signTimes[r.IntN(len(signTimes))], 0)
		if r.IntN(2) == 0 {
			m.at = time.Unix(int64(r.Uint32()), 0)
		}
		out = append(out, m)
	}
	return out
}

// reported compares the list Verify returned with the model.
func reported(t *T, what string, got []*rpmutils.Signature, want []*madeSig, known bool) {
	if len(got) != len(want) {
		t.Errorf("%s: %d signatures reported, %d made", what, len(got), len(want))
		return
	}
	used := map[int]bool{}
	full := false
	for i, g := range got {
		if g.HeaderOnly && full {
			t.Errorf("%s: a header-only signature comes after one over the payload", what)
		}
		full = full || !g.HeaderOnly
		ok, why := false, ""
		// first those that record a fingerprint: what is reported for one of
		// them may also be reported for one like it that does not
		for _, noFp := range []bool{false, true} {
			for j, m := range want {
				if ok || used[j] || (m.id == 1) != noFp {
					continue
				}
				w := describe(g, m, known)
				if w == "" {
					used[j], ok = true, true
				} else {
					why += fmt.Sprintf("\n  %v: %s", m, w)
				}
			}
		}
		if !ok {
			t.Errorf("%s: reported signature %d matches none that was made:%s", what, i, why)
		}
		t.Event("reported signatures compared")
	}
}

func describe(g *rpmutils.Signature, m *madeSig, known bool) string {
	k := key(m.key)
	if w := sameSig(g, m.headerOnly(), m.key, m.hash, m.at, m.at, known); w != "" {
		return w
	}
	if m.id != 1 && !bytes.Equal(g.KeyFingerprint, k.Key.Fingerprint) {
		return fmt.Sprintf("fingerprint %x is recorded in the signature, reported %x", k.Key.Fingerprint, g.KeyFingerprint)
	}
	return ""
}

// namesKey says whether an error names the key of one of the signatures.
func namesKey(err error, missing []*madeSig) string {
	var nf rpmutils.KeyNotFoundError
	if !errors.As(err, &nf) {
		return fmt.Sprintf("error %T (%v) is not KeyNotFoundError", err, err)
	}
	for _, m := range missing {
		k := key(m.key).Key
		idOK := nf.KeyID == k.KeyId || nf.KeyID == 0 && m.id == 2 && len(nf.Fingerprint) > 0
		fpOK := len(nf.Fingerprint) == 0 || bytes.Equal(nf.Fingerprint, k.Fingerprint)
		if idOK && fpOK {
			return ""
		}
	}
	return fmt.Sprintf("error names key %x (fingerprint %x)", nf.KeyID, nf.Fingerprint)
}

func init() {
	register(&Check{
		ID:          "C18",
		Rule:        "each case is a package with 1 to 4 signatures by keys of all kinds (identified by key ID, fingerprint or both, any hash, time and packet framing) verified against nil, empty, partial, complete, shuffled and forged keyrings, or a signature tag holding something other than one signature packet; decisions, errors and every reported field are compared with the model of who signed what; distinct by package and keyring",
		Require:     map[string]int64{"reported signatures compared": 3000, "key-not-found errors": 1500, "malformed signature tags": 500, "forged keys": 100, "keys resembling supplied ones": 300, "complete keyrings": 800, "keyrings of hundreds of keys": 100},
		Assumptions: []string{"no two different keys of a keyring share a key ID, except the forged ones made here"},
		Groups: []Group{
			{Name: "keyrings", N: n(2250, 25000), Run: func(t *T, i int) {
				r := t.R
				sigs := randSigs(r, 4)
				p := sigPkg(r, sigs, false)
				data := p.Bytes()
				t.Sig(data)
				for _, m := range sigs {
					t.Note("signature %v", m)
					t.Seen("key, tag and identification", fmt.Sprintf("%s/%d/%d", m.key, m.tag, m.id))
				}
				verify := func(el openpgp.EntityList) ([]*rpmutils.Signature, error) {
					hdr, got, err := rpmutils.Verify(&fragReader{data: data, r: r, style: r.IntN(fragStyles)}, el)
					if (hdr == nil) != (err != nil) {
						t.Errorf("Verify returned header %v and error %v", hdr != nil, err)
					}
					return got, err
				}
				got, err := verify(nil)
				if err != nil {
					t.Errorf("no keyring: %v", err)
				} else {
					reported(t, "no keyring", got, sigs, false)
				}
				for k := 0; k < 6; k++ {
					// a keyring with some of the keys
					var names []string
					for _, name := range keyNames {
						if k > 0 && (r.IntN(2) == 0 || k == 1) {
							names = append(names, name)
						}
					}
					if k == 2 { // precisely the signers
						names = nil
						seen := map[string]bool{}
						for _, m := range sigs {
							if !seen[m.key] {
								seen[m.key] = true
								names = append(names, m.key)
							}
						}
					}
					if k == 3 { // all but one signer
						gone := sigs[r.IntN(len(sigs))].key
						names = nil
						for _, name := range keyNames {
							if name != gone {
								names = append(names, name)
							}
						}
					}
					r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
					var missing []*madeSig
					for _, m := range sigs {
						found := false
						for _, name := range names {
							found = found || name == m.key
						}
						if !found {
							missing = append(missing, m)
						}
					}
					what := fmt.Sprintf("keyring %v", names)
					el := ring(names...)
					if k == 5 && i%3 == 0 { // among many others
						for _, o := range strangers() {
							el = append(el, o)
						}
						r.Shuffle(len(el), func(a, b int) { el[a], el[b] = el[b], el[a] })
						what += " among many others"
						t.Event("keyrings of hundreds of keys")
					}
					got, err := verify(el)
					t.SubSig(k, names)
					if len(missing) > 0 {
						if err == nil {
							t.Errorf("%s: verified although the key of %v is missing", what, missing[0])
						} else if m := namesKey(err, missing); m != "" {
							t.Errorf("%s: %s", what, m)
						}
						t.Event("key-not-found errors")
						continue
					}
					t.Event("complete keyrings")
					if err != nil {
						t.Errorf("%s: %v", what, err)
						continue
					}
					reported(t, what, got, sigs, true)
				}
				t.Sample(map[string]any{"signatures": fmt.Sprint(sigs)})
			}},
			{Name: "not verified", N: n(500, 4000), Run: func(t *T, i int) {
				// without a keyring signatures are only parsed
				r := t.R
				sigs := randSigs(r, 4)
				p := sigPkg(r, sigs, true)
				t.Sig(p.Bytes())
				_, got, err := rpmutils.Verify(bytes.NewReader(p.Bytes()), nil)
				if err != nil {
					t.Errorf("signatures over something else, no keyring: %v", err)
				} else {
					reported(t, "no keyring", got, sigs, false)
				}
				for _, el := range []openpgp.EntityList{ring(keyNames...), ring()} {
					if _, _, err := rpmutils.Verify(bytes.NewReader(p.Bytes()), el); err == nil {
						t.Errorf("signatures over something else verify with %d keys", len(el))
					}
				}
				// no signatures at all
				q := p.clone()
				q.Sig = dropTags(q.Sig, sRSA, sDSA, sPGP, sGPG)
				q.FinishSig(r)
				for _, el := range []openpgp.EntityList{nil, ring(), ring(keyNames...)} {
					_, got, err := rpmutils.Verify(bytes.NewReader(q.Bytes()), el)
					if err != nil || len(got) != 0 {
						t.Errorf("unsigned package: %d signatures, %v", len(got), err)
					}
				}
			}},
			{Name: "malformed", N: n(1500, 12000), Run: func(t *T, i int) {
				r := t.R
				sigs := randSigs(r, 4)
				p := sigPkg(r, sigs, false)
				m := sigs[r.IntN(len(sigs))]
				parts := [][]byte{p.GenBytes}
				if !m.headerOnly() {
					parts = append(parts, p.Payload)
				}
				m.sign(parts...)
				good := m.blob
				var h HTag
				kind := []string{"empty", "trailing byte", "second signature", "trailing packet", "truncated", "other packet", "random bytes", "not binary", "no issuer", "text", "packets before", "zero padding", "armored"}[i%13]
				switch kind {
				case "empty":
					h = bin(m.tag, nil)
				case "trailing byte":
					h = bin(m.tag, append(append([]byte{}, good...), byte(r.IntN(256))))
				case "zero padding":
					h = bin(m.tag, append(append([]byte{}, good...), make([]byte, 1+r.IntN(20))...))
				case "second signature":
					h = bin(m.tag, append(append([]byte{}, good...), good...))
				case "trailing packet":
					h = bin(m.tag, append(append([]byte{}, good...), otherPacket(r)...))
				case "packets before":
					h = bin(m.tag, append(otherPacket(r), good...))
				case "truncated":
					h = bin(m.tag, good[:r.IntN(len(good))])
				case "other packet":
					h = bin(m.tag, otherPacket(r))
				case "random bytes":
					b := randContent(r, 1+r.IntN(300))
					b[0] &= 0x7f // no packet starts like this
					h = bin(m.tag, b)
				case "text":
					h = bin(m.tag, []byte("this is not a signature\n"))
				case "armored":
					h = bin(m.tag, []byte("-----BEGIN PGP SIGNATURE-----\n\niQEzBAABCAAdFiEE\n-----END PGP SIGNATURE-----\n"))
				case "not binary":
					h = bin(m.tag, good)
					switch r.IntN(4) {
					case 0:
						h = strTag(m.tag, "iQEzBAAB")
					case 1:
						h = strArr(m.tag, "a", "b")
					case 2:
						h = i32(m.tag, 1, 2, 3)
					case 3:
						h = i8(m.tag, good...)
					}
				case "no issuer":
					m.id = 3
					m.sign(parts...)
					h = bin(m.tag, m.blob)
				}
				p.Sig = append(dropTags(p.Sig, m.tag), h)
				p.FinishSig(r)
				t.Sig(p.Bytes())
				t.Seen("malformed kind and tag", fmt.Sprintf("%s/%d", kind, m.tag))
				for name, el := range map[string]openpgp.EntityList{"no keyring": nil, "empty keyring": ring(), "all keys": ring(keyNames...), "the key": ring(m.key)} {
					_, got, err := rpmutils.Verify(bytes.NewReader(p.Bytes()), el)
					if err == nil {
						t.Errorf("%s: %s in tag %d accepted, %d signatures", name, kind, m.tag, len(got))
					}
					t.Event("malformed signature tags")
				}
			}},
			{Name: "forged", N: n(750, 6000), Run: func(t *T, i int) {
				// another key that claims the signer's key ID or fingerprint
				r := t.R
				sigs := randSigs(r, 2)
				p := sigPkg(r, sigs, false)
				t.Sig(p.Bytes())
				m := sigs[0]
				other := keyNames[r.IntN(len(keyNames))]
				for other == m.key {
					other = keyNames[r.IntN(len(keyNames))]
				}
				e := *key(other).Entity
				pk := *e.PrimaryKey
				pk.KeyId = key(m.key).Key.KeyId
				if i%2 == 0 {
					pk.Fingerprint = key(m.key).Key.Fingerprint
				}
				e.PrimaryKey = &pk
				var el openpgp.EntityList
				for _, s := range sigs { // all other signers are known
					if s.key != m.key {
						el = append(el, key(s.key).Entity)
					}
				}
				el = append(el, &e)
				r.Shuffle(len(el), func(a, b int) { el[a], el[b] = el[b], el[a] })
				if _, got, err := rpmutils.Verify(bytes.NewReader(p.Bytes()), el); err == nil {
					t.Errorf("%v accepted for key %s with forged ID, %d signatures", m, other, len(got))
				}
				t.Event("forged keys")
			}},
			{Name: "near misses", N: n(400, 4000), Run: func(t *T, i int) {
				// the signing key's ID and fingerprint resemble those of supplied keys
				r := t.R
				near := key(keyNames[r.IntN(len(keyNames))]).Key
				maker := *key(keyNames[r.IntN(len(keyNames))]).Key
				id := near.KeyId
				fp := append([]byte{}, near.Fingerprint...)
				var how string
				switch i % 8 {
				case 0:
					id, how = id^uint64(1+r.Uint32())<<32, "low half of the ID"
				case 1:
					id, how = id^uint64(1+r.Uint32()), "high half of the ID"
				case 2:
					id, how = 0, "no ID at all"
				case 3:
					id, how = bits.ReverseBytes64(id), "bytes of the ID in reverse order"
				case 4:
					id, how = id>>8, "shifted ID"
				case 5:
					id, how = id^1<<r.IntN(64), "all but one bit of the ID"
				case 6:
					id, how = id<<32|id>>32, "halves of the ID"
				case 7:
					id, how = ^id, "complement"
				}
				if id == near.KeyId || id == 0 && i%8 != 2 {
					return
				}
				binary.BigEndian.PutUint64(fp[len(fp)-8:], id)
				sig := &packet.Signature{SigType: packet.SigTypeBinary, CreationTime: time.Unix(1600000000, 0), PubKeyAlgo: maker.PubKeyAlgo, Hash: crypto.SHA256}
				maker.Fingerprint = nil
				mode := []string{"ID", "ID and fingerprint", "fingerprint"}[r.IntN(3)]
				if mode != "fingerprint" {
					sig.IssuerKeyId = &id
				}
				if mode != "ID" {
					maker.Fingerprint = fp
				}
				d := randDigests(r)
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(300), Digests: &d})
				h := crypto.SHA256.New()
				h.Write(p.GenBytes)
				t.must(sig.Sign(h, &maker, nil))
				var b bytes.Buffer
				t.must(sig.Serialize(&b))
				p.Sig = append(p.Sig, bin(sRSA, b.Bytes()))
				p.FinishSig(r)
				t.Sig(p.Bytes())
				t.Note("signature by a key that shares the %s with a supplied one, identified by %s", how, mode)
				names := append([]string{}, keyNames...)
				r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
				hdr, got, err := rpmutils.Verify(bytes.NewReader(p.Bytes()), ring(names...))
				var nf rpmutils.KeyNotFoundError
				if err == nil {
					t.Errorf("accepted (%d signatures)", len(got))
				} else if !errors.As(err, &nf) || hdr != nil {
					t.Errorf("error %T (%v) is not KeyNotFoundError", err, err)
				} else if mode != "fingerprint" && nf.KeyID != id || mode != "ID" && len(nf.Fingerprint) > 0 && !bytes.Equal(nf.Fingerprint, fp) {
					t.Errorf("the error names %x (%x) instead of %x (%x)", nf.KeyID, nf.Fingerprint, id, fp)
				}
				t.Event("keys resembling supplied ones")
			}},
			{Name: "real packages", N: func(string) int { return len(fixtureRpms()) }, Run: func(t *T, i int) {
				name := fixtureRpms()[i]
				data := fixture(name)
				t.Sig(name)
				p, err := parsePkg(data)
				t.must(err)
				_, sigs, err := rpmutils.Verify(bytes.NewReader(data), nil)
				if err != nil {
					t.Errorf("%s: %v", name, err)
					return
				}
				var want []*packet.Signature
				var only []bool
				for _, tag := range []int{sRSA, sDSA, sPGP, sGPG} {
					if e := p.Sig.get(tag); e != nil {
						x, err := packet.Read(bytes.NewReader(e.Data))
						t.must(err)
						want = append(want, x.(*packet.Signature))
						only = append(only, tag < 1000)
					}
				}
				if len(sigs) != len(want) {
					t.Errorf("%s: %d signatures, %d present", name, len(sigs), len(want))
					return
				}
				for k, g := range sigs {
					w := want[k]
					if g.Hash != w.Hash || !g.CreationTime.Equal(w.CreationTime) || w.IssuerKeyId != nil && g.KeyId != *w.IssuerKeyId || g.HeaderOnly != only[k] || g.Signer != nil {
						t.Errorf("%s: reported %+v", name, g)
					}
					t.Event("reported signatures compared")
				}
				if len(want) > 0 {
					_, _, err := rpmutils.Verify(bytes.NewReader(data), ring(keyNames...))
					var nf rpmutils.KeyNotFoundError
					if !errors.As(err, &nf) || *want[0].IssuerKeyId != nf.KeyID {
						t.Errorf("%s with unrelated keys: %v", name, err)
					}
				}
			}},
		},
	})
}

// otherPacket makes a well-formed packet that is not a signature.
func otherPacket(r *rand.Rand) []byte {
	var b bytes.Buffer
	k := key(keyNames[r.IntN(len(keyNames))])
	switch r.IntN(3) {
	case 0:
		check(k.Key.PublicKey.Serialize(&b))
	case 1:
		check(packet.NewUserId("A User", "", "user@example.com").Serialize(&b))
	case 2: // literal data
		b.Write([]byte{0xcb, 10, 'b', 0, 0, 0, 0, 0, 'd', 'a', 't', 'a'})
	}
	return b.Bytes()
}
