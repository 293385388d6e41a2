package main

import (
	"bytes"
	"crypto"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// remoteSigner is a private key kept elsewhere, which may fail to answer.
type remoteSigner struct {
	crypto.Signer
	calls, failAt int
	err           error
}

func (s *remoteSigner) Sign(rand io.Reader, digest []byte, opts crypto.SignerOpts) ([]byte, error) {
	s.calls++
	if s.calls-1 == s.failAt {
		return nil, s.err
	}
	return s.Signer.Sign(rand, digest, opts)
}

// C16: a signed package verifies and differs only in its signature header.

func init() {
	register(&Check{
		ID:          "C16",
		Rule:        "each case is an intact package (any digests, earlier signatures, reserved space, further tags, payload kinds) signed once or several times with one of 8 keys, any hash and creation time, by the stream and file routes, also with signature headers of thousands of tags and with keys kept elsewhere that may fail to answer; results are compared byte by byte with the original by an independent parser, signatures are checked with the OpenPGP library directly and by Verify; distinct by package bytes and signing options",
		Require:     map[string]int64{"signatures checked independently": 2000, "packages verified": 1000, "packages signed again": 200, "crowded signature headers": 10, "signers failed": 60, "signers asked": 20},
		Assumptions: []string{"keys are version 4 RSA, DSA, ECDSA and EdDSA keys with the private key unlocked; creation times fit OpenPGP's 32 bits"},
		Groups: []Group{
			{Name: "once", N: n(2100, 30000), Run: func(t *T, i int) {
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				s := randSigner(r)
				t.Sig(data, s.String())
				t.Note("signing with %v", s)
				s.begin()
				hdr, err := rpmutils.SignRpmStream(&fragReader{data: data, r: r, style: r.IntN(fragStyles)}, key(s.key).Key, s.opts)
				s.end()
				if err != nil {
					t.Fatalf("signing an intact package fails (digests %+v): %v", p.Digests, err)
				}
				t.Seen("key and hash", fmt.Sprintf("%s/%v", s.key, s.hash))
				for _, same := range []bool{i%2 == 0, i%2 == 1} {
					blob, err := hdr.DumpSignatureHeader(same)
					if err != nil {
						t.Fatalf("dump: %v", err)
					}
					out := splice(data, hdr, blob)
					what := fmt.Sprintf("spliced (same size %v)", same)
					checkSigned(t, what, data, out, s)
					checkVerifies(t, what, out, s, ring(s.key))
					checkVerifies(t, what, out, s, ring(append([]string{"rsaB", "p384"}, s.key, "sub")...))
					checkVerifies(t, what, out, s, nil)
				}
				// the returned header object answers for the signed package
				checkHeaderOf(t, "returned header", hdr, p)
				t.Sample(map[string]any{"signer": s.String(), "digests": p.Digests, "bytes": len(data)})
			}},
			{Name: "file", N: n(750, 10000), Run: func(t *T, i int) {
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				s := randSigner(r)
				t.Sig(data, s.String())
				dir := t.Dir()
				in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
				if i%3 == 0 {
					out = in
				}
				t.must(os.WriteFile(in, data, 0o644))
				f, err := os.Open(in)
				t.must(err)
				defer f.Close()
				s.begin()
				hdr, err := rpmutils.SignRpmFile(f, out, key(s.key).Key, s.opts)
				s.end()
				if err != nil {
					t.Fatalf("signing an intact package fails (digests %+v): %v", p.Digests, err)
				}
				got, err := os.ReadFile(out)
				t.must(err)
				what := map[bool]string{true: "signed in place", false: "signed to a new file"}[out == in]
				checkSigned(t, what, data, got, s)
				checkVerifies(t, what, got, s, ring(s.key))
				checkHeaderOf(t, what+": returned header", hdr, p)
				t.Event("files signed")
			}},
			{Name: "again", N: n(600, 8000), Run: func(t *T, i int) {
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				t.Sig(data)
				cur := data
				var last *signer
				for k := 0; k < 2+r.IntN(3); k++ {
					s := randSigner(r)
					for last != nil && s.key == last.key {
						s = randSigner(r)
					}
					var out []byte
					if r.IntN(2) == 0 {
						s.begin()
						hdr, err := rpmutils.SignRpmStream(bytes.NewReader(cur), key(s.key).Key, s.opts)
						s.end()
						if err != nil {
							t.Fatalf("signing again (%d): %v", k, err)
						}
						blob, err := hdr.DumpSignatureHeader(r.IntN(2) == 0)
						if err != nil {
							t.Fatalf("dump (%d): %v", k, err)
						}
						out = splice(cur, hdr, blob)
					} else {
						name := filepath.Join(t.Dir(), "x.rpm")
						t.must(os.WriteFile(name, cur, 0o600))
						f, err := os.Open(name)
						t.must(err)
						s.begin()
						_, err = rpmutils.SignRpmFile(f, name, key(s.key).Key, s.opts)
						s.end()
						f.Close()
						if err != nil {
							t.Fatalf("signing again (%d): %v", k, err)
						}
						out, err = os.ReadFile(name)
						t.must(err)
					}
					what := fmt.Sprintf("signing %d by %v", k, s)
					checkSigned(t, what, data, out, s)
					checkVerifies(t, what, out, s, ring(s.key))
					if last != nil {
						_, _, err := rpmutils.Verify(bytes.NewReader(out), ring(last.key))
						var nf rpmutils.KeyNotFoundError
						if !errors.As(err, &nf) || nf.KeyID != key(s.key).Key.KeyId {
							t.Errorf("%s: verified with the previous key only: %v", what, err)
						}
						t.Event("packages signed again")
					}
					last, cur = s, out
				}
			}},
			{Name: "many tags", N: n(10, 120), Run: func(t *T, i int) {
				// signature headers with thousands of tags, or large ones
				r := t.R
				p := crowded(r, i)
				data := p.Bytes()
				s := randSigner(r)
				t.Sig(data, s.String())
				s.begin()
				hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key(s.key).Key, s.opts)
				s.end()
				if err != nil {
					t.Fatalf("signing a package with %d signature tags: %v", len(p.Sig), err)
				}
				for _, same := range []bool{false, true} {
					blob, err := hdr.DumpSignatureHeader(same)
					if err != nil {
						t.Fatalf("dump: %v", err)
					}
					out := splice(data, hdr, blob)
					what := fmt.Sprintf("%d signature tags (same size %v)", len(p.Sig), same)
					checkSigned(t, what, data, out, s)
					checkVerifies(t, what, out, s, ring(s.key))
				}
				checkHeaderOf(t, "returned header", hdr, p)
				t.Event("crowded signature headers")
			}},
			{Name: "external signers", N: n(480, 4000), Run: func(t *T, i int) {
				// the private key is elsewhere (a token, a service), and asking it may fail
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				s := randSigner(r)
				for {
					if _, ok := key(s.key).Key.PrivateKey.(crypto.Signer); ok {
						break
					}
					s = randSigner(r)
				}
				failAt := []int{-1, 0, 1, 2, 1}[i%5]
				t.Sig(data, s.String(), failAt)
				pk := *key(s.key).Key
				out := &remoteSigner{Signer: pk.PrivateKey.(crypto.Signer), failAt: failAt, err: failures[r.IntN(len(failures))]}
				pk.PrivateKey = out
				dir := t.Dir()
				in, dest := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
				route := r.IntN(4)
				var hdr *rpmutils.RpmHeader
				var err error
				s.begin()
				if route == 0 {
					hdr, err = rpmutils.SignRpmStream(bytes.NewReader(data), &pk, s.opts)
				} else {
					if route == 1 {
						dest = in
					} else if route == 2 {
						t.must(os.WriteFile(dest, data[:len(data)/2], 0o644))
					}
					t.must(os.WriteFile(in, data, 0o644))
					f, ferr := os.Open(in)
					t.must(ferr)
					defer f.Close()
					hdr, err = rpmutils.SignRpmFile(f, dest, &pk, s.opts)
				}
				s.end()
				if failAt >= 0 && out.calls > failAt {
					t.Event("signers failed")
					if err == nil {
						t.Errorf("request %d to the signer failed, and signing succeeds", failAt)
					}
					if hdr != nil && route == 0 {
						t.Errorf("request %d to the signer failed, and a header is returned", failAt)
					}
					if route > 0 {
						got, rerr := os.ReadFile(in)
						if rerr != nil || !bytes.Equal(got, data) {
							t.Errorf("the signer failed, and the input is changed (%v)", rerr)
						}
						list, lerr := os.ReadDir(dir)
						t.must(lerr)
						want := 1
						if route == 2 {
							want = 2
							if got, rerr := os.ReadFile(dest); rerr != nil || !bytes.Equal(got, data[:len(data)/2]) {
								t.Errorf("the signer failed, and the destination is changed (%v)", rerr)
							}
						}
						if len(list) != want {
							t.Errorf("the signer failed, and there are %d files", len(list))
						}
					}
					return
				}
				if err != nil {
					t.Fatalf("signing with an external signer: %v", err)
				}
				t.Event("signers asked")
				var got []byte
				if route == 0 {
					blob, err := hdr.DumpSignatureHeader(false)
					if err != nil {
						t.Fatalf("dump: %v", err)
					}
					got = splice(data, hdr, blob)
				} else if got, err = os.ReadFile(dest); err != nil {
					t.Fatalf("%v", err)
				}
				checkSigned(t, "external signer", data, got, s)
				checkVerifies(t, "external signer", got, s, ring(s.key))
			}},
			{Name: "weak hashes", N: n(40, 500), Run: func(t *T, i int) {
				// hashes that need not be supported: if used, then as asked for
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				at := time.Unix(1600000000, 0)
				s := &signer{key: keyNames[r.IntN(len(keyNames))], hash: []crypto.Hash{crypto.SHA1, crypto.SHA3_256, crypto.SHA3_512}[r.IntN(3)], from: at, to: at}
				s.opts = &rpmutils.SignatureOptions{Hash: s.hash, CreationTime: at}
				t.Sig(data, s.String())
				hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key(s.key).Key, s.opts)
				if err != nil {
					t.Event("hash refused")
					return
				}
				blob, err := hdr.DumpSignatureHeader(false)
				if err != nil {
					t.Fatalf("dump: %v", err)
				}
				out := splice(data, hdr, blob)
				checkSigned(t, "weak hash", data, out, s)
				checkVerifies(t, "weak hash", out, s, ring(s.key))
			}},
			{Name: "real packages", N: func(string) int { return len(fixtureRpms()) * 3 }, Run: func(t *T, i int) {
				name := fixtureRpms()[i/3]
				data := fixture(name)
				t.Sig(name, i%3)
				if _, _, err := rpmutils.Verify(bytes.NewReader(data), nil); err != nil {
					t.Trivial()
					return
				}
				s := randSigner(t.R)
				s.begin()
				hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key(s.key).Key, s.opts)
				s.end()
				if err != nil {
					t.Fatalf("%s: %v", name, err)
				}
				blob, err := hdr.DumpSignatureHeader(t.R.IntN(2) == 0)
				if err != nil {
					t.Fatalf("dump: %v", err)
				}
				out := splice(data, hdr, blob)
				checkSigned(t, name, data, out, s)
				checkVerifies(t, name, out, s, ring(s.key))
				t.Event("real packages signed")
			}},
		},
	})
}

// crowded is a package with thousands of signature tags, or large ones.
func crowded(r *rand.Rand, i int) *Pkg {
	p := signablePkg(r)
	p.SigOpt.Share = false
	k := []int{2100, 300, 9000, 4100, 40}[i%5]
	for _, h := range manyTags(r, k) {
		h.Tag -= 10000 // what can be asked for
		if findTag(p.Sig, h.Tag) == nil && h.Tag < sigBase {
			p.Sig = append(p.Sig, h)
		}
	}
	if k < 1000 {
		p.Sig = append(p.Sig, bin(9990, randContent(r, []int{65536, 1 << 20, 9 << 20}[r.IntN(3)])))
	}
	p.FinishSig(r)
	return p
}

// checkHeaderOf compares the general header's tags with the package.
func checkHeaderOf(t *T, what string, hdr *rpmutils.RpmHeader, p *Pkg) {
	if hdr == nil {
		t.Fatalf("%s: none", what)
	}
	for i := range p.Gen {
		if h := &p.Gen[i]; h.Tag >= 1000 && h.Tag < sigBase {
			v, err := hdr.Get(h.Tag)
			if err != nil {
				t.Errorf("%s: tag %d: %v", what, h.Tag, err)
			} else if fmt.Sprint(v) != fmt.Sprint(h.Val) {
				t.Errorf("%s: tag %d is %.100v, not %.100v", what, h.Tag, v, h.Val)
			}
		}
	}
	rg := hdr.GetRange()
	if rg.Start != 96+len(p.SigBytes) || rg.End != p.HeaderEnd() {
		t.Errorf("%s: range %+v, is %d-%d", what, rg, 96+len(p.SigBytes), p.HeaderEnd())
	}
	for _, tag := range []int{sRSA, sPGP + sigBase} {
		if b, err := hdr.GetBytes(tag); err != nil || len(b) == 0 {
			t.Errorf("%s: signature %d: %v", what, tag, err)
		}
	}
}
