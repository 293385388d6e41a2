package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C17: no modification of signed content survives verification.

// looseSigHeader finds the end of the signature header and its entries without
// judging whether they are sensible.
func looseSigHeader(b []byte) (end int, ents map[int][]refEnt, err error) {
	if len(b) < 112 {
		return 0, nil, errors.New("too short")
	}
	nind, size := int(binary.BigEndian.Uint32(b[104:])), int(binary.BigEndian.Uint32(b[108:]))
	if nind > len(b) || size > len(b) {
		return 0, nil, errors.New("signature header is longer than the file")
	}
	store := 112 + 16*nind
	end = store + (size+7)&^7
	if end > len(b) {
		return 0, nil, errors.New("signature header is longer than the file")
	}
	ents = map[int][]refEnt{}
	for i := 0; i < nind; i++ {
		x := b[112+16*i:]
		e := refEnt{Tag: be32(x), Type: be32(x[4:]), Off: be32(x[8:]), Count: be32(x[12:])}
		if e.Type == tBin && e.Off >= 0 && e.Count >= 0 && e.Off+e.Count <= end-store {
			e.Data = b[store+e.Off : store+e.Off+e.Count]
		}
		ents[e.Tag] = append(ents[e.Tag], e)
	}
	return end, ents, nil
}

// tampered runs Verify on a modified package. If it succeeds, then the signed
// bytes have to be the original ones and every signature has to be valid.
func tampered(t *T, what string, r *rand.Rand, orig *refPkg, mod []byte, names []string) (accepted bool) {
	el := ring(names...)
	var style int
	if r.IntN(4) == 0 {
		style = r.IntN(fragStyles)
	}
	hdr, sigs, err := rpmutils.Verify(&fragReader{data: mod, r: r, style: style}, el)
	t.Event("modified packages verified")
	if err != nil {
		t.Event("modified packages rejected")
		return false
	}
	end, ents, err := looseSigHeader(mod)
	if err != nil {
		t.Errorf("%s: verified, but it is not a package: %v", what, err)
		return true
	}
	gen, payload := mod[end:], []byte(nil)
	if len(gen) >= len(orig.GenRaw) {
		gen, payload = gen[:len(orig.GenRaw)], gen[len(orig.GenRaw):]
	}
	if !bytes.Equal(gen, orig.GenRaw) {
		t.Errorf("%s: verified with a changed general header", what)
	}
	if !bytes.Equal(payload, orig.Payload) {
		t.Errorf("%s: verified with a changed payload (%d bytes, was %d)", what, len(payload), len(orig.Payload))
	}
	present := 0
	for _, tag := range []int{sRSA, sDSA, sPGP, sGPG} {
		es := ents[tag]
		if len(es) == 0 {
			continue
		}
		present++
		if len(es) > 1 {
			continue // ambiguous
		}
		parts := [][]byte{gen}
		if tag >= 1000 {
			parts = append(parts, payload)
		}
		if es[0].Type != tBin {
			t.Errorf("%s: verified with a signature %d of type %d", what, tag, es[0].Type)
		} else if _, _, err := refVerifyBlob(es[0].Data, el, parts...); err != nil {
			t.Errorf("%s: verified with an invalid signature %d: %v", what, tag, err)
		}
	}
	if len(sigs) != present {
		t.Errorf("%s: %d signatures reported, %d are present", what, len(sigs), present)
	}
	if v, err := hdr.GetString(gName); err != nil || v != string(bytes.TrimRight(orig.Gen.get(gName).Data, "\x00")) {
		t.Errorf("%s: the returned header is not that of the package: name %q, %v", what, v, err)
	}
	t.Event("modified packages accepted with intact signed content")
	return true
}

// sealed makes a package whose payload is protected by a signature or by a
// signed digest.
func sealed(r *rand.Rand, size int, which int, names []string) *Pkg {
	d := randDigests(r)
	if which == 0 || which == 3 { // header-only signatures
		d.Payload, d.Algo, d.NoAlgoTag = "ok", []int{8, 9, 10, 11}[r.IntN(4)], false
	}
	p := genPkg(r, PkgOpt{RawPayload: size, Digests: &d, Plain: true})
	p.Sig = dropTags(p.Sig, sReserved)
	if p.TrueSize = r.IntN(2) == 0; p.TrueSize {
		p.Sig = append(dropTags(p.Sig, sSize), i32(sSize, 0))
	}
	sealWith(r, p, which, names)
	return p
}

var sealKinds = [][]int{{sRSA}, {sPGP}, {sRSA, sPGP}, {sDSA}, {sDSA, sGPG}, {sRSA, sDSA, sPGP, sGPG}, {sGPG}, {sRSA, sPGP, sGPG}}

func sealWith(r *rand.Rand, p *Pkg, which int, names []string) {
	p.Sig = dropTags(p.Sig, sRSA, sPGP, sDSA, sGPG)
	for _, tag := range sealKinds[which] {
		parts := [][]byte{p.GenBytes}
		if tag >= 1000 {
			parts = append(parts, p.Payload)
		}
		p.Sig = append(p.Sig, bin(tag, makeSig(names[r.IntN(len(names))], strongHashes[r.IntN(4)], time.Unix(1500000000+int64(r.IntN(1000)), 0), parts...)))
	}
	p.FinishSig(r)
}

// mutateBytes changes, inserts, removes, moves or appends bytes.
func mutateBytes(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	at := 0
	if len(b) > 0 {
		at = r.IntN(len(b))
	}
	k := 1 + r.IntN(1+r.IntN(40))
	kind := r.IntN(9)
	if len(b) < 2 {
		kind = 2
	}
	switch kind {
	case 0:
		b[at] ^= byte(1 << r.IntN(8))
		return b, fmt.Sprintf("bit flip at %d", at)
	case 1:
		b[at] = byte(int(b[at]) + 1 + r.IntN(255))
		return b, fmt.Sprintf("byte changed at %d", at)
	case 2:
		return append(b, randContent(r, k)...), fmt.Sprintf("%d bytes appended", k)
	case 3:
		return append(b, make([]byte, k)...), fmt.Sprintf("%d zero bytes appended", k)
	case 4:
		k = min(k, len(b))
		return b[:len(b)-k], fmt.Sprintf("last %d bytes removed", k)
	case 5:
		ins := randContent(r, k)
		return append(append(append([]byte{}, b[:at]...), ins...), b[at:]...), fmt.Sprintf("%d bytes inserted at %d", k, at)
	case 6:
		k = min(k, len(b)-at)
		return append(append([]byte{}, b[:at]...), b[at+k:]...), fmt.Sprintf("%d bytes removed at %d", k, at)
	case 7:
		j := r.IntN(len(b))
		b[at], b[j] = b[j], b[at]
		return b, fmt.Sprintf("bytes %d and %d swapped", at, j)
	default:
		copy(b[at:], b[:min(k, len(b)-at)])
		return b, fmt.Sprintf("%d bytes overwritten at %d", k, at)
	}
}

// renew rebuilds the signature header with the digests of the present bytes
// but the given signatures.
func (p *Pkg) renew(r *rand.Rand) []byte {
	for _, d := range []*string{&p.Digests.SHA1, &p.Digests.SHA256, &p.Digests.MD5} {
		if *d != "" {
			*d = "ok"
		}
	}
	p.FinishSig(r)
	return p.Bytes()
}

func (p *Pkg) clone() *Pkg {
	q := *p
	q.Sig, q.Gen = append([]HTag{}, p.Sig...), append([]HTag{}, p.Gen...)
	q.GenBytes, q.SigBytes, q.Payload = append([]byte{}, p.GenBytes...), append([]byte{}, p.SigBytes...), append([]byte{}, p.Payload...)
	q.Lead = append([]byte{}, p.Lead...)
	return &q
}

// hashedPart is the length of the signature packet's head that is signed,
// and the offset of the values after the unsigned subpackets.
func hashedPart(blob []byte) (signed, values int) {
	off := 2 // new-format header
	switch {
	case blob[0]&0x40 == 0:
		off = 1 + 1<<(blob[0]&3)
	case blob[1] >= 192 && blob[1] < 224:
		off = 3
	case blob[1] == 255:
		off = 6
	}
	h := int(binary.BigEndian.Uint16(blob[off+4:]))
	signed = off + 6 + h
	u := int(binary.BigEndian.Uint16(blob[signed:]))
	return signed, signed + 2 + u + 2
}

func init() {
	register(&Check{
		ID:          "C17",
		Rule:        "each case is one signed package (any subset of the four signature tags, any key, hash and digest configuration) and a set of modifications of its signed bytes, signature packets or signature header, with and without all unauthenticated digests recomputed; whenever Verify accepts, the signed bytes have to equal the original ones and every signature present has to pass an independent check; distinct by modified package",
		Require:     map[string]int64{"modified packages rejected": 30000, "intact packages accepted": 500, "modifications with consistent digests": 1500, "signature packets altered": 3000, "signatures exchanged": 600, "large payloads modified": 6},
		Assumptions: []string{"the signature's unhashed subpackets carry no signed information; removing a signature altogether is not a modification of signed content", "a package that only carries header-only signatures records a payload digest in its header"},
		Groups: []Group{
			{Name: "every byte", N: n(40, 1500), Run: func(t *T, i int) {
				r := t.R
				which := i % len(sealKinds)
				p := sealed(r, 20+r.IntN(150), which, keyNames)
				data := p.Bytes()
				orig, err := parsePkg(data)
				t.must(err)
				t.Sig(data)
				if !tampered(t, "original", r, orig, data, keyNames) {
					t.Fatalf("a correctly signed package (%v) does not verify", sealKinds[which])
				}
				t.Event("intact packages accepted")
				for pos := 96 + len(p.SigBytes); pos < len(data); pos++ {
					mod := append([]byte{}, data...)
					mod[pos] ^= byte(1 << r.IntN(8))
					if tampered(t, fmt.Sprintf("flip at %d of %d (header ends at %d)", pos, len(data), p.HeaderEnd()), r, orig, mod, keyNames) {
						t.Errorf("a flip at %d was accepted", pos)
					}
					t.SubSig(pos)
				}
				// the signature header: implication only
				for pos := 0; pos < 96+len(p.SigBytes); pos += 1 + r.IntN(3) {
					mod := append([]byte{}, data...)
					mod[pos] ^= byte(1 << r.IntN(8))
					tampered(t, fmt.Sprintf("flip at %d in lead or signature header", pos), r, orig, mod, keyNames)
				}
				for k := 0; k < 60; k++ {
					m, how := mutateBytes(r, data[96+len(p.SigBytes):])
					mod := append(append([]byte{}, data[:96+len(p.SigBytes)]...), m...)
					tampered(t, how, r, orig, mod, keyNames)
				}
			}},
			{Name: "consistent digests", N: n(300, 20000), Run: func(t *T, i int) {
				r := t.R
				which := i % len(sealKinds)
				names := []string{keyNames[r.IntN(len(keyNames))]}
				p := sealed(r, 1+r.IntN(500), which, names)
				orig, err := parsePkg(p.Bytes())
				t.must(err)
				t.Sig(p.Bytes())
				if !tampered(t, "original", r, orig, p.Bytes(), names) {
					t.Fatalf("a correctly signed package (%v) does not verify", sealKinds[which])
				}
				t.Event("intact packages accepted")
				for k := 0; k < 8; k++ {
					q := p.clone()
					how := ""
					switch r.IntN(5) {
					case 0: // bytes of the payload
						q.Payload, how = mutateBytes(r, q.Payload)
						how = "payload: " + how
					case 1: // bytes of the header
						q.GenBytes, how = mutateBytes(r, q.GenBytes)
						how = "header: " + how
					case 2: // payload with its digest in the header recomputed
						q.Payload, how = mutateBytes(r, q.Payload)
						how = "payload, digest in header renewed: " + how
						if d := &q.Digests; d.Payload != "" {
							d.Payload = "ok"
						}
						sig := q.Sig
						q.Finish(r)
						q.Sig = sig
					case 3: // a tag of the header
						j := r.IntN(len(q.Gen))
						switch r.IntN(3) {
						case 0:
							if q.Gen[j].Tag == gName {
								j = (j + 1) % len(q.Gen)
							}
							how = fmt.Sprintf("header tag %d removed", q.Gen[j].Tag)
							q.Gen = append(q.Gen[:j], q.Gen[j+1:]...)
						case 1:
							how = fmt.Sprintf("header tag %d replaced", q.Gen[j].Tag)
							q.Gen[j] = strTag(q.Gen[j].Tag, randName(r))
						default:
							how = "header tag added"
							q.Gen = append(q.Gen, strTag(9700+r.IntN(100), "x"))
						}
						sig := q.Sig
						q.GenBytes = buildHeader(r, q.Gen, q.GenOpt, false)
						q.Sig = sig
					case 4: // same content in another layout
						how = "header laid out differently"
						q.GenOpt = randHOpt(r, 63)
						q.GenBytes = buildHeader(r, q.Gen, q.GenOpt, false)
					}
					mod := q.renew(r)
					t.Event("modifications with consistent digests")
					tampered(t, how, r, orig, mod, names)
					t.SubSig(string(mod))
				}
				t.Sample(map[string]any{"signatures": sealKinds[which], "key": names[0], "bytes": len(p.Bytes())})
			}},
			{Name: "signature packets", N: n(120, 6000), Run: func(t *T, i int) {
				r := t.R
				which := i % len(sealKinds)
				p := sealed(r, 1+r.IntN(300), which, keyNames)
				orig, err := parsePkg(p.Bytes())
				t.must(err)
				t.Sig(p.Bytes())
				tag := sealKinds[which][r.IntN(len(sealKinds[which]))]
				blob := findTag(p.Sig, tag).Val.([]byte)
				signed, values := hashedPart(blob)
				for k := 0; k < 40; k++ {
					q := p.clone()
					var mod []byte
					must := false // has to be rejected
					how := ""
					switch k % 3 {
					case 0: // a bit of the signed part or of the values
						pos := r.IntN(signed + len(blob) - values)
						if pos >= signed {
							pos += values - signed
						}
						mod = append([]byte{}, blob...)
						mod[pos] ^= byte(1 << r.IntN(8))
						how = fmt.Sprintf("flip at %d of %d", pos, len(mod))
					case 1:
						mod, how = mutateBytes(r, blob)
					default: // another value altogether
						mod = makeSig(keyNames[r.IntN(len(keyNames))], strongHashes[r.IntN(4)], time.Unix(1500000000, 0), []byte("something else"))
						how, must = "signature over something else", true
					}
					*findTag(q.Sig, tag) = bin(tag, mod)
					if tampered(t, fmt.Sprintf("tag %d: %s", tag, how), r, orig, q.renew(r), keyNames) && must {
						t.Errorf("tag %d: %s accepted", tag, how)
					}
					t.Event("signature packets altered")
				}
			}},
			{Name: "far", N: n(6, 60), Run: func(t *T, i int) {
				// payloads of hundreds of megabytes, and beyond 4 GiB
				r := t.R
				size := []int64{300<<20 + 5, 140<<20 + 3, 70 << 20, 30<<20 + 1, 17 << 20, 2<<30 + 5, 4<<30 + 9}[i%7]
				name := keyNames[r.IntN(len(keyNames))]
				p := farPkg(r, size, "sig", name)
				t.Sig(size, i, name)
				verify := func(size, flip int64) error {
					p.farRenew(r, size, flip)
					_, _, err := rpmutils.Verify(p.farStream(r, size, flip), ring(keyNames...))
					t.Event("modified packages verified")
					return err
				}
				if err := verify(size, -1); err != nil {
					t.Fatalf("a correctly signed package of %d bytes does not verify: %v", size, err)
				}
				t.Event("intact packages accepted")
				spots := farSpots(r, size)
				if size > 1<<30 {
					spots = spots[:1]
				}
				for _, at := range spots {
					if verify(size, at) == nil {
						t.Errorf("a flip at %d of %d of the payload was accepted", at, size)
					}
				}
				if verify(size+1, -1) == nil || verify(size-1, -1) == nil {
					t.Errorf("a payload of %d bytes that is longer or shorter by one was accepted", size)
				}
				t.Event("large payloads modified")
			}},
			{Name: "exchanged", N: n(150, 8000), Run: func(t *T, i int) {
				r := t.R
				names := []string{keyNames[r.IntN(len(keyNames))]}
				which := []int{2, 5, 4, 7}[i%4]
				a, b := sealed(r, 1+r.IntN(300), which, names), sealed(r, 1+r.IntN(300), which, names)
				if i%3 == 0 { // same header, other payload
					b = a.clone()
					b.Payload, _ = mutateBytes(r, b.Payload)
					b.Digests.Payload = ""
					a.Digests.Payload = ""
					a.Digests.MD5, b.Digests.MD5 = "ok", "ok"
					a.Finish(r)
					b.Finish(r)
					sealWith(r, a, which, names)
					sealWith(r, b, which, names)
				}
				if bytes.Equal(a.GenBytes, b.GenBytes) && bytes.Equal(a.Payload, b.Payload) {
					t.Trivial()
					return
				}
				orig, err := parsePkg(a.Bytes())
				t.must(err)
				t.Sig(a.Bytes(), b.Bytes())
				if !tampered(t, "original", r, orig, a.Bytes(), names) {
					t.Fatalf("a correctly signed package does not verify")
				}
				t.Event("intact packages accepted")
				try := func(how string, sig ...HTag) {
					q := a.clone()
					for _, h := range sig {
						q.Sig = append(dropTags(q.Sig, h.Tag), h)
					}
					if tampered(t, how, r, orig, q.renew(r), names) {
						q2, _ := parsePkg(q.Bytes())
						for _, h := range sig { // still valid only if the contents happen to agree
							parts := [][]byte{q2.GenRaw}
							if h.Tag >= 1000 {
								parts = append(parts, q2.Payload)
							}
							if _, _, err := refVerifyBlob(h.Data, ring(names...), parts...); err != nil {
								t.Errorf("%s was accepted", how)
							}
						}
					}
					t.Event("signatures exchanged")
				}
				for _, tag := range sealKinds[which] {
					try(fmt.Sprintf("signature %d of another package", tag), *findTag(b.Sig, tag))
					for _, other := range sealKinds[which] {
						if other != tag {
							try(fmt.Sprintf("signature %d in place of %d", other, tag), bin(tag, findTag(a.Sig, other).Val.([]byte)))
							try(fmt.Sprintf("signatures %d and %d swapped", other, tag), bin(tag, findTag(a.Sig, other).Val.([]byte)), bin(other, findTag(a.Sig, tag).Val.([]byte)))
						}
					}
				}
				var all []HTag
				for _, tag := range sealKinds[which] {
					all = append(all, *findTag(b.Sig, tag))
				}
				try("all signatures of another package", all...)
				// a second, invalid signature next to valid ones
				for _, tag := range []int{sRSA, sDSA, sPGP, sGPG} {
					if findTag(a.Sig, tag) == nil {
						try(fmt.Sprintf("additional invalid signature %d", tag), bin(tag, makeSig(names[0], crypto.SHA256, time.Unix(1500000000, 0), []byte("x"))))
					}
				}
				// another package's content below this one's signature header
				q := b.clone()
				q.SigBytes = a.SigBytes
				tampered(t, "signature header put on another package", r, orig, q.Bytes(), names)
				// general header of one, payload of the other
				q = a.clone()
				q.Payload = append([]byte{}, b.Payload...)
				tampered(t, "payload of another package", r, orig, q.renew(r), names)
				// concatenations
				tampered(t, "content appended", r, orig, append(a.Bytes(), b.Payload...), names)
				tampered(t, "package appended", r, orig, append(a.Bytes(), b.Bytes()...), names)
				tampered(t, "header inserted", r, orig, append(append(append([]byte{}, a.Bytes()[:96+len(a.SigBytes)]...), b.GenBytes...), a.Bytes()[96+len(a.SigBytes):]...), names)
			}},
			{Name: "signed by the library", N: n(120, 5000), Run: func(t *T, i int) {
				// modifications of what SignRpmStream made
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				s := randSigner(r)
				hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key(s.key).Key, s.opts)
				if err != nil {
					t.Trivial() // C16 judges this
					return
				}
				blob, err := hdr.DumpSignatureHeader(i%2 == 0)
				if err != nil {
					t.Trivial()
					return
				}
				out := splice(data, hdr, blob)
				orig, err := parsePkg(out)
				if err != nil {
					t.Trivial()
					return
				}
				t.Sig(out)
				if !tampered(t, "original", r, orig, out, []string{s.key}) {
					t.Trivial()
					return
				}
				t.Event("intact packages accepted")
				// as a model, to renew the digests
				q := &Pkg{Lead: orig.Lead, GenBytes: orig.GenRaw, Payload: orig.Payload, Sig: tagsFromRef(orig.Sig), SigOpt: HOpt{Region: 62}}
				q.Sig = dropTags(q.Sig, 62)
				for tag, d := range map[int]*string{sSHA1: &q.Digests.SHA1, sSHA256: &q.Digests.SHA256, sMD5: &q.Digests.MD5} {
					if findTag(q.Sig, tag) != nil {
						*d = "ok"
					}
				}
				for k := 0; k < 10; k++ {
					m := q.clone()
					how := ""
					if k%2 == 0 {
						m.Payload, how = mutateBytes(r, m.Payload)
					} else {
						m.GenBytes, how = mutateBytes(r, m.GenBytes)
					}
					tampered(t, how, r, orig, m.renew(r), []string{s.key})
					t.Event("modifications with consistent digests")
				}
			}},
		},
	})
}
