package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C27: detached, streamed and in-file signing are equivalent.

// route signs data in one way and returns the result.
type route struct {
	name string
	run  func(t *T, r *rand.Rand, data []byte, sg *signer) ([]byte, *rpmutils.RpmHeader)
}

func fileRoute(kind string) route {
	return route{"file to " + kind, func(t *T, r *rand.Rand, data []byte, sg *signer) ([]byte, *rpmutils.RpmHeader) {
		s := newScene(t, r, kind, data)
		f := s.open()
		defer f.Close()
		end := s.drain()
		var hdr *rpmutils.RpmHeader
		var err error
		t.inDir(s.cwd, func() {
			hdr, err = rpmutils.SignRpmFile(f, s.out, key(sg.key).Key, sg.opts)
		})
		var got []byte
		if end != nil {
			got = end()
		}
		if err != nil {
			t.Fatalf("file to %s: %v", kind, err)
		}
		if end == nil {
			got, err = s.delivered()
			if err != nil {
				t.Fatalf("file to %s: %v", kind, err)
			}
		}
		return got, hdr
	}}
}

func streamRoute(same bool) route {
	return route{fmt.Sprintf("stream, dump(%v)", same), func(t *T, r *rand.Rand, data []byte, sg *signer) ([]byte, *rpmutils.RpmHeader) {
		hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key(sg.key).Key, sg.opts)
		if err != nil {
			t.Fatalf("stream: %v", err)
		}
		blob, err := hdr.DumpSignatureHeader(same)
		if err != nil {
			t.Fatalf("dump: %v", err)
		}
		return splice(data, hdr, blob), hdr
	}}
}

// rewriteRoute inserts signatures made on a stream.
func rewriteRoute(kind string) route {
	return route{"rewrite to " + kind, func(t *T, r *rand.Rand, data []byte, sg *signer) ([]byte, *rpmutils.RpmHeader) {
		hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key(sg.key).Key, sg.opts)
		if err != nil {
			t.Fatalf("stream: %v", err)
		}
		pgp, err1 := hdr.GetBytes(rpmutils.SIG_PGP)
		rsa, err2 := hdr.GetBytes(rpmutils.SIG_RSA)
		if err1 != nil || err2 != nil {
			t.Fatalf("signatures of the signed header: %v, %v", err1, err2)
		}
		got, out := rewriteTo(t, r, kind, data, pgp, rsa)
		checkRewritten(t, "rewrite to "+kind, data, got, pgp, rsa)
		return got, out
	}}
}

func rewriteTo(t *T, r *rand.Rand, kind string, data, pgp, rsa []byte) ([]byte, *rpmutils.RpmHeader) {
	s := newScene(t, r, kind, data)
	f := s.open()
	defer f.Close()
	end := s.drain()
	var out *rpmutils.RpmHeader
	var err error
	a, b := append([]byte{}, pgp...), append([]byte{}, rsa...)
	t.inDir(s.cwd, func() {
		out, err = rpmutils.RewriteWithSignatures(f, s.out, a, b)
	})
	var got []byte
	if end != nil {
		got = end()
	}
	if err == nil && end == nil {
		got, err = s.delivered()
	}
	if err != nil {
		t.Fatalf("rewrite to %s: %v", kind, err)
	}
	return got, out
}

// wholeText is everything the library answers about a package.
func wholeText(data []byte, names []string, tags []int) (string, string) {
	v := opVerify(bytes.NewReader(data), ring(names...), tags)
	u := opVerify(bytes.NewReader(data), nil, tags)
	cut := func(s string) string { // sizes depend on padding
		k := strings.LastIndex(s, "range ")
		return s[:max(k, 0)]
	}
	if !v.ok || !u.ok {
		return "does not verify: " + v.text, u.text
	}
	return cut(v.text), cut(u.text)
}

func init() {
	register(&Check{
		ID:          "C27",
		Rule:        "each case signs one package with the same key, hash and time by the stream route (dumped at minimal and at same size), to files of several kinds of destination, in place, and by inserting the raw signatures; the results' signature headers and contents are parsed independently and compared, as are their verification and all queries; distinct by package and signing options",
		Require:     map[string]int64{"results compared": 2500, "returned headers compared with the result": 2500, "results with identical signatures": 800, "raw signatures stored": 600, "crowded signature headers": 9},
		Assumptions: []string{"RSA PKCS#1 and EdDSA signatures are deterministic; for other algorithms signature bytes are compared only where they were inserted raw"},
		Groups: []Group{
			{Name: "routes", N: n(900, 20000), Run: func(t *T, i int) {
				r := t.R
				p := signablePkg(r)
				if i%2 == 0 {
					slack(r, p, i%4 == 0)
				}
				if i%50 == 49 {
					p = crowded(r, i/50)
					t.Event("crowded signature headers")
				}
				data := p.Bytes()
				det := i%3 != 0
				sg := fixedSigner(r, "rsaA", "rsaB", "rsa3072", "ed25519")
				if !det {
					sg = fixedSigner(r, "p256", "p384", "dsa", "sub")
				}
				if i%7 == 0 {
					sg.opts.Hash = 0
					sg.hash = strongHashes[0]
				}
				t.Sig(data, sg.String())
				kinds := []string{destKinds[r.IntN(len(destKinds)-1)], destKinds[r.IntN(len(destKinds)-1)]}
				routes := []route{streamRoute(false), streamRoute(true), fileRoute("new"), fileRoute("input"), fileRoute(kinds[0]),
					rewriteRoute("new"), rewriteRoute("input"), rewriteRoute(kinds[1])}
				var tags []int
				for _, h := range p.Gen {
					tags = append(tags, h.Tag)
				}
				for _, h := range p.Sig {
					if h.Tag != sReserved && h.Tag != sRSA && h.Tag != sDSA && h.Tag != sPGP && h.Tag != sGPG {
						tags = append(tags, queryNumber(h.Tag, true, false))
					}
				}
				var first *refPkg
				var text1, text2, name1 string
				for _, rt := range routes {
					out, hdr := rt.run(t, r, data, sg)
					if hdr == nil {
						t.Errorf("%s: no header", rt.name)
					}
					b, err := parsePkg(out)
					if err != nil {
						t.Errorf("%s: not a package: %v", rt.name, err)
						continue
					}
					if err := wellFormedSig(b.Sig); err != nil {
						t.Errorf("%s: %v", rt.name, err)
					}
					// what the returned header answers is what the result has
					if back, err := rpmutils.ReadHeader(bytes.NewReader(out)); err != nil {
						t.Errorf("%s: reading the result: %v", rt.name, err)
					} else if hdr != nil {
						all := append([]int{rpmutils.SIG_RSA, rpmutils.SIG_DSA, rpmutils.SIG_PGP, rpmutils.SIG_GPG}, tags...)
						cut := func(s string) string { return s[:strings.LastIndex(s, "range ")] }
						w1, w2 := cut(headerText(hdr, all)), cut(headerText(back, all))
						if w1 != w2 || hdr.IsSource() != back.IsSource() {
							a, c := firstDiff(w1, w2)
							t.Errorf("%s: the returned header answers %q (source: %v), the result has %q (%v)", rt.name, a, hdr.IsSource(), c, back.IsSource())
						}
						t.Event("returned headers compared with the result")
					}
					x1, x2 := wholeText(out, []string{sg.key}, tags)
					if first == nil {
						checkSigned(t, rt.name, data, out, sg)
						first, text1, text2, name1 = b, x1, x2, rt.name
						continue
					}
					if !bytes.Equal(b.Lead, first.Lead) || !bytes.Equal(b.GenRaw, first.GenRaw) || !bytes.Equal(b.Payload, first.Payload) {
						t.Errorf("%s and %s differ in lead, general header or payload", rt.name, name1)
					}
					var except []int
					if !det {
						except = []int{sRSA, sPGP}
					} else {
						t.Event("results with identical signatures")
					}
					if err := sigTagsEqual(first.Sig, b.Sig, except...); err != nil {
						t.Errorf("%s and %s: signature headers: %v", name1, rt.name, err)
					}
					for _, tag := range []int{sRSA, sPGP} {
						if b.Sig.get(tag) == nil {
							t.Errorf("%s: no signature %d", rt.name, tag)
						}
					}
					if x1 != text1 || x2 != text2 {
						a, c := firstDiff(text1+text2, x1+x2)
						t.Errorf("%s and %s verify differently: %q, %q", name1, rt.name, a, c)
					}
					t.Event("results compared")
					t.Seen("route", rt.name)
				}
				t.Sample(map[string]any{"signer": sg.String(), "bytes": len(data)})
			}},
			{Name: "arbitrary raw signatures", N: n(800, 16000), Run: func(t *T, i int) {
				r := t.R
				p := signablePkg(r)
				slack(r, p, i%2 == 0)
				data := p.Bytes()
				size := []int{1, 7, 8, 70, 72, 287, 543, 544}[r.IntN(8)]
				a := randContent(r, size+r.IntN(3))
				b := randContent(r, 1+r.IntN(600))
				switch i % 10 {
				case 3:
					a = []byte{}
				case 6:
					b = []byte{}
				case 9:
					a, b = []byte{}, []byte{}
				}
				kind := destKinds[i%(len(destKinds)-1)]
				t.Sig(data, kind, a, b)
				got, hdr := rewriteTo(t, r, kind, data, a, b)
				ref := checkRewritten(t, "rewrite to "+kind, data, got, a, b)
				if ref == nil {
					return
				}
				for tag, want := range map[int][]byte{rpmutils.SIG_PGP: a, rpmutils.SIG_RSA: b} {
					if v, err := hdr.GetBytes(tag); err != nil || !bytes.Equal(v, want) {
						t.Errorf("the returned header has %.60x (%v) as signature %d, given was %.60x", v, err, tag, want)
					}
				}
				back, err := rpmutils.ReadHeader(bytes.NewReader(got))
				if err != nil {
					t.Fatalf("reading the result: %v", err)
				}
				for tag, want := range map[int][]byte{rpmutils.SIG_PGP: a, rpmutils.SIG_RSA: b} {
					if v, err := back.GetBytes(tag); err != nil || !bytes.Equal(v, want) {
						t.Errorf("read back as %.60x (%v), given was %.60x for %d", v, err, want, tag)
					}
				}
				// again, with shorter ones: nothing of the former stays
				c, d := randContent(r, 1+r.IntN(40)), randContent(r, 1+r.IntN(40))
				got2, _ := rewriteTo(t, r, "input", got, c, d)
				checkRewritten(t, "second rewrite", got, got2, c, d)
				t.Event("raw signatures stored", 2)
			}},
		},
	})
}

var _ = os.Stat
