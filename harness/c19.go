package main

import (
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C19: recorded digests are enforced on reading, verifying and signing.

const (
	dAccept = iota
	dReject
	dOpen // not specified
)

var dNames = []string{"accept", "reject", "open"}

// decisions runs all operations that have to enforce digests.
func decisions(t *T, r *rand.Rand, data []byte, header, whole int, what string) {
	judge := func(op string, want int, err error) {
		t.Event("decisions observed")
		switch {
		case want == dAccept && err != nil:
			t.Errorf("%s: %s fails: %v", what, op, err)
		case want == dReject && err == nil:
			t.Errorf("%s: %s accepts it", what, op)
		}
		if want == dReject {
			t.Event("rejections required")
		} else if want == dAccept {
			t.Event("acceptances required")
		}
	}
	rd := func() *fragReader { return &fragReader{data: data, r: r, style: r.IntN(fragStyles)} }
	_, err := rpmutils.ReadHeader(rd())
	judge("ReadHeader", header, err)
	_, err = rpmutils.ReadRpm(rd())
	judge("ReadRpm", header, err)
	if header == dReject {
		whole = dReject
	} else if header == dOpen && whole == dAccept {
		whole = dOpen
	}
	_, _, err = rpmutils.Verify(rd(), nil)
	judge("Verify without keys", whole, err)
	_, _, err = rpmutils.Verify(rd(), ring("rsaA"))
	judge("Verify with a key", whole, err)
	_, err = rpmutils.SignRpmStream(rd(), key("ed25519").Key, nil)
	judge("SignRpmStream", whole, err)
	if r.IntN(4) == 0 {
		dir := t.Dir()
		in := filepath.Join(dir, "in.rpm")
		t.must(os.WriteFile(in, data, 0o644))
		f, err := os.Open(in)
		t.must(err)
		defer f.Close()
		out := filepath.Join(dir, "out.rpm")
		_, err = rpmutils.SignRpmFile(f, out, key("ed25519").Key, nil)
		judge("SignRpmFile", whole, err)
		_, err = f.Seek(0, 0)
		t.must(err)
		_, err = rpmutils.RewriteWithSignatures(f, out, []byte("x"), []byte("y"))
		judge("RewriteWithSignatures", header, err)
	}
}

// wrongHex is a wrong digest of some kind.
func wrongHex(r *rand.Rand, right string, gen []byte) (string, string) {
	switch r.IntN(9) {
	case 0:
		b := []byte(right)
		i := r.IntN(len(b))
		for c := b[i]; b[i] == c; {
			b[i] = "0123456789abcdef"[r.IntN(16)]
		}
		return string(b), "one digit differs"
	case 1:
		return right[:len(right)-1-r.IntN(len(right)-1)], "truncated"
	case 2:
		return right + "00", "longer"
	case 3:
		return strings.Repeat("0", len(right)), "zeros"
	case 4:
		return "x" + right[1:], "not hexadecimal"
	case 5:
		h := hexSum(sha1.New(), gen)
		if len(right) == 40 {
			h = hexSum(sha256.New(), gen)
		}
		return h, "other algorithm"
	case 6:
		b, _ := hex.DecodeString(right)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		if hex.EncodeToString(b) == right {
			b[0]++
		}
		return hex.EncodeToString(b), "reversed"
	case 7:
		return right[:len(right)/2] + hexSum(sha256.New(), []byte("other"))[:len(right)-len(right)/2], "second half differs"
	}
	return hexSum(md5.New(), gen) + right[32:], "first half differs"
}

func init() {
	register(&Check{
		ID:          "C19",
		Rule:        "each case is a package with some combination of recorded digests (each absent, right, or wrong in one of 9 ways; all payload digest algorithms, unknown ones, none) or an intact package one of whose bytes was changed, inserted or removed after the digests were made; the accept or reject decision of reading, verifying and signing is compared with a decision table over independently computed digests; distinct by package bytes",
		Require:     map[string]int64{"rejections required": 5000, "acceptances required": 1500},
		Assumptions: []string{"combinations the property leaves open are not judged: a right preferred digest next to a wrong lesser one, and digest tags of another data type"},
		Groups: []Group{
			{Name: "digest table", N: n(800, 40000), Run: func(t *T, i int) {
				r := t.R
				sha256State, sha1State := []string{"", "ok", "bad"}[i%3], []string{"", "ok", "bad"}[i/3%3]
				payState := []string{"", "ok", "bad", "unknown algorithm", "no algorithm"}[i/9%5]
				md5State := []string{"", "ok", "bad"}[i/45%3]
				if i >= 135 { // weight on what is usual
					sha256State, sha1State = []string{"ok", "ok", "", "bad"}[r.IntN(4)], []string{"ok", "ok", "", "bad"}[r.IntN(4)]
				}
				algo := []int{8, 1, 2, 9, 10, 11}[i%6]
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(5000), Digests: &DigestCfg{}})
				var how []string
				if payState != "" {
					right := hexSum(algoHash(algo), p.Payload)
					switch payState {
					case "bad":
						v, h := wrongHex(r, right, p.GenBytes)
						how = append(how, "payload digest "+h)
						right = v
					case "unknown algorithm":
						algo = []int{0, 3, 5, 6, 7, 12, 14, 100, 1 << 20}[r.IntN(9)]
					}
					tag := strArr(gPayloadDigest, right)
					if r.IntN(4) == 0 {
						tag = strTag(gPayloadDigest, right)
					}
					p.Gen = append(p.Gen, tag)
					if payState != "no algorithm" {
						p.Gen = append(p.Gen, i32(gPayloadDigestAlgo, uint32(algo)))
					}
				}
				p.GenBytes = buildHeader(r, p.Gen, p.GenOpt, false)
				p.Sig = dropTags(p.Sig, sSHA1, sSHA256, sMD5)
				put := func(tag int, state, right string) {
					if state == "bad" {
						var h string
						right, h = wrongHex(r, right, p.GenBytes)
						how = append(how, fmt.Sprintf("tag %d %s", tag, h))
					}
					if state != "" {
						p.Sig = append(p.Sig, strTag(tag, right))
					}
				}
				put(sSHA256, sha256State, hexSum(sha256.New(), p.GenBytes))
				put(sSHA1, sha1State, hexSum(sha1.New(), p.GenBytes))
				sum := cryptoNew(crypto.MD5, p.GenBytes, p.Payload)
				if md5State == "bad" {
					switch r.IntN(5) {
					case 0:
						sum[r.IntN(16)] ^= byte(1 << r.IntN(8))
					case 1:
						sum = sum[:r.IntN(15)+1]
					case 2:
						sum = append(sum, 0)
					case 3:
						sum = cryptoNew(crypto.MD5, p.Payload) // not over the header
					case 4:
						sum = cryptoNew(crypto.MD5, p.GenBytes)
					}
					how = append(how, fmt.Sprintf("MD5 %x", sum))
				}
				if md5State != "" {
					p.Sig = append(p.Sig, bin(sMD5, sum))
				}
				p.SigBytes = buildHeader(r, p.Sig, p.SigOpt, true)
				header := dAccept
				switch {
				case sha256State == "bad", sha256State == "" && sha1State == "bad":
					header = dReject
				case sha1State == "bad":
					header = dOpen
				}
				whole := dAccept
				switch payState {
				case "ok":
					if md5State == "bad" {
						whole = dOpen
					}
				case "bad":
					whole = dReject
				default:
					if md5State != "ok" {
						whole = dReject
					}
				}
				data := p.Bytes()
				t.Sig(data)
				t.Seen("digest combination", fmt.Sprintf("sha256 %q sha1 %q payload %q/%d md5 %q", sha256State, sha1State, payState, algo, md5State))
				decisions(t, r, data, header, whole, fmt.Sprintf("sha256 %q, sha1 %q, payload %q (algorithm %d), md5 %q, %v", sha256State, sha1State, payState, algo, md5State, how))
				t.Sample(map[string]any{"sha256": sha256State, "sha1": sha1State, "payload": payState, "md5": md5State, "header": dNames[header], "whole": dNames[whole]})
			}},
			{Name: "changed content", N: n(500, 30000), Run: func(t *T, i int) {
				r := t.R
				d := randDigests(r)
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(1000), Digests: &d})
				if i%3 == 0 {
					signPkg(r, p, "rsaA", crypto.SHA256, time.Unix(1600000000, 0))
				}
				t.Sig(p.Bytes())
				decisions(t, r, p.Bytes(), dAccept, dAccept, fmt.Sprintf("intact, digests %+v", d))
				for k := 0; k < 6; k++ {
					q := p.clone()
					header, whole := dAccept, dReject
					var how string
					if k%2 == 0 {
						q.Payload, how = mutateBytes(r, q.Payload)
						how = "payload: " + how
						if bytes.Equal(q.Payload, p.Payload) {
							continue
						}
						if i%3 == 0 {
							whole = dReject
						}
					} else {
						// the header keeps its length, so that it is still found
						for at := r.IntN(len(q.GenBytes)); ; at = r.IntN(len(q.GenBytes)) {
							if at >= 8 && at < 16 && r.IntN(3) > 0 {
								continue
							}
							q.GenBytes[at] ^= byte(1 << r.IntN(8))
							how = fmt.Sprintf("header: flip at %d of %d", at, len(q.GenBytes))
							break
						}
						header = dReject
						if d.SHA256 == "" && d.SHA1 == "" {
							// no digest of the header alone is recorded
							header = dOpen
							whole = dOpen
							if d.Payload == "" || d.NoAlgoTag || algoHash(d.Algo) == nil {
								whole = dReject // by MD5
							}
							if pr, err := parseHeader(q.GenBytes, false); err != nil || pr.Size != len(q.GenBytes) || whole == dReject && !sameDigestTags(p, pr) {
								whole = dOpen
							}
						}
					}
					t.SubSig(string(q.Bytes()))
					decisions(t, r, q.Bytes(), header, whole, fmt.Sprintf("%s, digests %+v", how, d))
				}
			}},
			{Name: "big payloads", N: n(12, 150), Run: func(t *T, i int) {
				// a change far into a payload
				r := t.R
				d := randDigests(r)
				p := genPkg(r, PkgOpt{RawPayload: 100000 + r.IntN(3000000), Digests: &d})
				t.Sig(p.Bytes())
				decisions(t, r, p.Bytes(), dAccept, dAccept, "intact")
				q := p.clone()
				at := r.IntN(len(q.Payload))
				if i%2 == 0 {
					at = len(q.Payload) - 1
				}
				q.Payload[at] ^= 1
				decisions(t, r, q.Bytes(), dAccept, dReject, fmt.Sprintf("flip at %d of %d of the payload, digests %+v", at, len(q.Payload), d))
			}},
			{Name: "far", N: n(8, 60), Run: func(t *T, i int) {
				// payloads of hundreds of megabytes, and beyond 2 and 4 GiB
				r := t.R
				size := []int64{300<<20 + 5, 270 << 20, 130<<20 + 1, 2<<30 + 77, 64<<20 + 3, 300<<20 + 5, 40 << 20, 4<<30 + 9}[i%8]
				protect := []string{"md5", "sha256", "both", "sha256"}[(i+i/8)%4]
				p := farPkg(r, size, protect, "")
				t.Sig(size, protect, i)
				t.Note("%d bytes protected by %s", size, protect)
				judge := func(how string, ok bool, size, flip int64) {
					op := r.IntN(3)
					if size > 1<<31 {
						op = 0
					}
					var err error
					rd := p.farStream(r, size, flip)
					name := "Verify"
					switch op {
					case 0:
						_, _, err = rpmutils.Verify(rd, nil)
					case 1:
						name = "SignRpmStream"
						_, err = rpmutils.SignRpmStream(rd, key("ed25519").Key, nil)
					case 2:
						name = "Verify with a key"
						_, _, err = rpmutils.Verify(rd, ring("rsaA"))
					}
					t.Event("decisions observed")
					t.Event("decisions about large payloads")
					if ok && err != nil {
						t.Errorf("%s of %d bytes protected by %s, %s: %v", name, size, protect, how, err)
					} else if !ok && err == nil {
						t.Errorf("%s of %d bytes protected by %s, %s: accepted", name, size, protect, how)
					}
				}
				judge("intact", true, size, -1)
				spots := farSpots(r, size)
				if size > 1<<31 {
					judge("changed", false, size, spots[r.IntN(len(spots))])
					return
				}
				for _, at := range spots[:3] {
					judge(fmt.Sprintf("changed at %d", at), false, size, at)
				}
				judge("one byte longer", false, size+1, -1)
				judge("one byte shorter", false, size-1, -1)
			}},
			{Name: "real packages", N: func(string) int { return len(fixtureRpms()) * 4 }, Run: func(t *T, i int) {
				r := t.R
				name := fixtureRpms()[i/4]
				data := append([]byte{}, fixture(name)...)
				p, err := parsePkg(data)
				t.must(err)
				t.Sig(name, i%4)
				end := len(data) - len(p.Payload)
				switch i % 4 {
				case 0:
					decisions(t, r, data, dAccept, dAccept, name)
				case 1, 2:
					at := end - 1 - r.IntN(len(p.GenRaw)-16)
					data[at] ^= byte(1 << r.IntN(8))
					decisions(t, r, data, dReject, dReject, fmt.Sprintf("%s: flip at %d", name, at))
				case 3:
					at := end + r.IntN(len(p.Payload))
					data[at] ^= byte(1 << r.IntN(8))
					decisions(t, r, data, dAccept, dReject, fmt.Sprintf("%s: flip at %d", name, at))
				}
			}},
		},
	})
}

// sameDigestTags says whether the changed header still lacks a usable payload
// digest like the original.
func sameDigestTags(p *Pkg, h *refHdr) bool {
	for _, tag := range []int{gPayloadDigest, gPayloadDigestAlgo} {
		e, o := h.get(tag), findTag(p.Gen, tag)
		if (e == nil) != (o == nil) || e != nil && (!bytes.Equal(e.Data, o.Data) || e.Type != o.Type || e.Count != o.Count) {
			return false
		}
	}
	return true
}
