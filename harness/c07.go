package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/rand/v2"
	"path/filepath"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C07: results do not depend on how the stream is delivered.

// delivered runs op on whole-buffer delivery and on every fragmentation.
func delivered(t *T, what string, data []byte, partial bool, op func(rd io.Reader) outcome) {
	ref := op(bytes.NewReader(data))
	for style := 0; style < fragStyles; style++ {
		got := op(onlyRead{&fragReader{data: data, style: style, r: t.R}})
		t.Event("deliveries compared")
		t.Seen("operation x delivery", what+" / "+fragNames[style])
		if got.ok != ref.ok {
			t.Errorf("%s: delivered as %q: success %v (%.200s); at once: success %v (%.200s)", what, fragNames[style], got.ok, got.text, ref.ok, ref.text)
		} else if got.ok && got.text != ref.text {
			t.Errorf("%s: delivered as %q the result differs:\n%.600s\ninstead of\n%.600s", what, fragNames[style], got.text, ref.text)
		}
	}
	for n := 0; n < 3; n++ {
		kind := t.R.IntN(len(naturalNames))
		rd, done := natural(t.R, kind, data)
		got := op(rd)
		done()
		t.Event("deliveries compared")
		t.Seen("operation x delivery", what+" / "+naturalNames[kind])
		if got.ok != ref.ok {
			t.Errorf("%s: from a %s: success %v (%.200s); from another: success %v (%.200s)", what, naturalNames[kind], got.ok, got.text, ref.ok, ref.text)
		} else if got.ok && got.text != ref.text {
			t.Errorf("%s: from a %s the result differs:\n%.600s\ninstead of\n%.600s", what, naturalNames[kind], got.text, ref.text)
		}
	}
	if ref.ok {
		t.Event("operations that succeed")
	} else {
		t.Event("operations that fail")
	}
}

// signPkg signs a package with library primitives only (not the code under test).
func signPkg(r *rand.Rand, p *Pkg, name string, hash crypto.Hash, at time.Time) {
	p.Sig = dropTags(p.Sig, sRSA, sPGP, sDSA, sGPG)
	p.Sig = append(p.Sig, bin(sRSA, makeSig(name, hash, at, p.GenBytes)), bin(sPGP, makeSig(name, hash, at, p.GenBytes, p.Payload)))
	p.FinishSig(r)
}

var compressors = []string{"uncompressed", "gzip", "bzip2", "xz", "lzma", "zstd", ""}

func init() {
	register(&Check{
		ID:          "C07",
		Rule:        "each case runs one operation on one package or archive delivered at once, in 8 fragmentations (one byte, halves, random, zero-length reads, data together with EOF) and through standard readers (files, pipes, sections, buffers, in the middle of larger streams); outcomes (values, entries, contents, trees, decisions) must agree; intact inputs of all compressors, and damaged inputs for the decision; distinct by input and operation",
		Require:     map[string]int64{"deliveries compared": 5000, "operations that succeed": 500, "operations that fail": 50, "large packages": 20},
		Assumptions: []string{"no reader returns zero bytes without error more than once in a row"},
		Groups: []Group{
			{Name: "headers", N: n(250, 15000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{MaxFiles: 6, Compressor: compressors[i%6]})
				signPkg(r, p, []string{"rsaA", "ed25519"}[i%2], crypto.SHA256, time.Unix(1600000000, 0))
				data := p.Bytes()
				bad := i%4 == 3
				if bad { // damage or truncate
					if r.IntN(2) == 0 {
						data = data[:r.IntN(len(data))]
					} else {
						data[r.IntN(len(data))] ^= 1 << r.IntN(8)
					}
				}
				t.Sig(data)
				tags := tagsOf(p)
				delivered(t, "ReadHeader", data, false, func(rd io.Reader) outcome { return opReadHeader(rd, tags) })
				delivered(t, "Verify(nil)", data, false, func(rd io.Reader) outcome { return opVerify(rd, nil, tags) })
				delivered(t, "Verify(keys)", data, false, func(rd io.Reader) outcome { return opVerify(rd, ring("rsaA", "ed25519"), tags) })
				delivered(t, "SignRpmStream", data, false, func(rd io.Reader) outcome { return opSign(rd, "ed25519") })
			}},
			{Name: "payloads", Variants: []string{"cgo", "nocgo"}, N: n(150, 6000), Run: func(t *T, i int) {
				r := t.R
				comp := append(compressors, "gzip")[i%(len(compressors)+1)]
				p := genPkg(r, PkgOpt{MaxFiles: 8, Compressor: comp, NoCompTag: i%(len(compressors)+1) == len(compressors), Stripped: r.IntN(2) == 0})
				if comp != "" && comp != "uncompressed" {
					p.Payload = compress(r, comp, p.Archive, r.IntN(compressLayouts[comp]))
					p.Finish(r)
				}
				data := p.Bytes()
				t.Sig(data)
				if findTag(p.Gen, gPayloadCompressor) == nil {
					comp += " (not recorded)"
				}
				bufSize := []int{1, 7, 4096}[r.IntN(3)]
				plan := randPlan(r)
				delivered(t, "PayloadReaderExtended "+comp, data, false, func(rd io.Reader) outcome { return opExtended(rd, bufSize, plan) })
				if !p.stripped() {
					delivered(t, "PayloadReader "+comp, data, false, func(rd io.Reader) outcome { return opPayloadReader(rd, bufSize, plan) })
					k := 0
					dir := t.Dir()
					delivered(t, "ExpandPayload "+comp, data, false, func(rd io.Reader) outcome {
						k++
						return opExpand(rd, filepath.Join(dir, fmt.Sprint(k)))
					})
				}
			}},
			{Name: "large", Variants: []string{"cgo", "nocgo"}, N: n(21, 600), Run: func(t *T, i int) {
				// contents, headers and payloads larger than any buffer
				r := t.R
				comp := compressors[i%len(compressors)]
				p := bigPkg(r, comp, r.IntN(3) == 0, []int{100000, 300000, 1200000}[i/len(compressors)%3])
				p.Gen = append(p.Gen, strTag(19999, strings.Repeat("x", 40000+r.IntN(50000))))
				p.Gen = append(p.Gen, manyTags(r, 3000)...)
				p.Sig = append(p.Sig, bin(300, randContent(r, 70000+r.IntN(1000))))
				p.Finish(r)
				signPkg(r, p, "ed25519", crypto.SHA256, time.Unix(1600000000, 0))
				data := p.Bytes()
				t.Sig(data)
				tags := []int{19999, 20000 + r.IntN(3000), 300 + sigBase, gName}
				delivered(t, "ReadHeader (large)", data, false, func(rd io.Reader) outcome { return opReadHeader(rd, tags) })
				delivered(t, "Verify (large)", data, false, func(rd io.Reader) outcome { return opVerify(rd, ring("ed25519"), tags) })
				delivered(t, "SignRpmStream (large)", data, false, func(rd io.Reader) outcome { return opSign(rd, "ed25519") })
				bufSize := []int{999, 4096, 70000}[r.IntN(3)]
				delivered(t, "PayloadReaderExtended (large) "+comp, data, false, func(rd io.Reader) outcome { return opExtended(rd, bufSize, readAllPlan) })
				if !p.stripped() {
					k := 0
					dir := t.Dir()
					delivered(t, "ExpandPayload (large) "+comp, data, false, func(rd io.Reader) outcome {
						k++
						return opExpand(rd, filepath.Join(dir, fmt.Sprint(k)))
					})
				}
				t.Event("large packages")
			}},
			{Name: "archives", N: n(400, 20000), Run: func(t *T, i int) {
				r := t.R
				files := genFiles(r, FilesOpt{Max: 8, Special: true, Links: true})
				stripped := i%4 == 0
				data, _ := archiveOf(r, files, stripped, []string{"", "."}[r.IntN(2)], nil)
				bad := i%3 == 2
				if bad {
					switch r.IntN(3) {
					case 0:
						data = data[:r.IntN(len(data))]
					default:
						data[r.IntN(len(data))] ^= 1 << r.IntN(8)
					}
				}
				t.Sig(data)
				var sizes []int64
				if stripped {
					for _, f := range files {
						sizes = append(sizes, int64(len(f.archived())))
					}
				}
				bufSize := []int{1, 7, 4096}[r.IntN(3)]
				plan := randPlan(r)
				delivered(t, "cpio.Reader", data, false, func(rd io.Reader) outcome { return opCpio(rd, sizes, bufSize, plan) })
				if !stripped {
					dir := t.Dir()
					k := 0
					delivered(t, "Extract", data, false, func(rd io.Reader) outcome {
						k++
						return opExtract(rd, filepath.Join(dir, fmt.Sprint(k)))
					})
				}
			}},
			{Name: "fixtures", N: func(string) int { return len(fixtureRpms()) }, Run: func(t *T, i int) {
				name := fixtureRpms()[i]
				data := fixture(name)
				t.Sig(name)
				ref, err := parsePkg(data)
				t.must(err)
				tags := tagsOf(&Pkg{Sig: tagsFromRef(ref.Sig), Gen: tagsFromRef(ref.Gen)})
				delivered(t, "ReadHeader", data, false, func(rd io.Reader) outcome { return opReadHeader(rd, tags) })
				delivered(t, "Verify(nil)", data, false, func(rd io.Reader) outcome { return opVerify(rd, nil, tags) })
				delivered(t, "PayloadReaderExtended", data, false, func(rd io.Reader) outcome { return opExtended(rd, 4096, readAllPlan) })
			}},
		},
	})
}

// randPlan says how much of each entry to read.
func randPlan(r *rand.Rand) func(int) int {
	mode, seed := r.IntN(4), r.Uint64()
	return func(i int) int {
		switch mode {
		case 0:
			return -1
		case 1:
			return 0
		}
		q := rand.New(rand.NewPCG(seed, uint64(i)))
		switch q.IntN(3) {
		case 0:
			return -1
		case 1:
			return 0
		}
		return q.IntN(200)
	}
}

func (p *Pkg) stripped() bool { return bytes.HasPrefix(p.Archive, []byte("07070X")) }

var _ = rpmutils.ReadHeader
