package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"path/filepath"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C21: signing a file delivers the complete result to exactly its destination.

func init() {
	register(&Check{
		ID:          "C21",
		Rule:        "each case signs or rewrites one package file (with or without room for an update in place, small or larger than a pipe's buffer) to one of 23 kinds of destination in a scratch tree; when success is reported the destination's bytes are taken apart and checked, and a snapshot of the whole tree is compared for changes elsewhere; distinct by package and destination kind",
		Require:     map[string]int64{"destinations checked": 500, "objects around the destination watched": 5000, "updates in place": 20, "large files written": 8, "headers with a known number of bytes to spare": 150, "unusual directories for temporary files": 100, "permissions of delivered files": 300},
		Assumptions: []string{"a pipe has a reader at some time; nobody else works in the tree meanwhile"},
		Groups: []Group{
			{Name: "destinations", N: n(len(destKinds)*30, len(destKinds)*1500), Run: func(t *T, i int) {
				r := t.R
				kind := destKinds[i%len(destKinds)]
				p := signablePkg(r)
				if r.IntN(4) == 0 {
					p.Payload = randContent(r, 60000+r.IntN(200000))
					p.Finish(r)
				}
				room := i/len(destKinds)%2 == 0
				slack(r, p, room)
				data := p.Bytes()
				s := newScene(t, r, kind, data)
				t.Sig(data, kind)
				t.Note("destination: %s, room %v", kind, room)
				f := s.open()
				defer f.Close()
				if i/len(destKinds)/2%3 == 1 {
					defer otherTempDir(t, s)()
				}
				sg := randSigner(r)
				raw := r.IntN(3) == 0
				mask := []int{0o022, 0o022, 0, 0o077, 0o027}[r.IntN(5)]
				a, b := randContent(r, r.IntN(700)), randContent(r, r.IntN(700))
				var err error
				var got []byte
				if kind == "standard output" {
					f.Close()
					sg = &signer{key: keyNames[r.IntN(len(keyNames))], hash: strongHashes[0]}
					sg.from, sg.to = time.Unix(1600000000, 0), time.Unix(1600000000, 0)
					a, b = []byte("pgpsig"), []byte("rsasig")
					op := "sign"
					if raw {
						op = "rewrite"
					}
					o, e := s.signProcess(op, sg.key, -1, nil, string(a), string(b))
					if !bytes.Contains(e, []byte("DONE")) {
						t.Fatalf("%s: %s", kind, e)
					}
					got = o
				} else {
					end := s.drain()
					var hdr *rpmutils.RpmHeader
					t.inDir(s.cwd, func() {
						defer syscall.Umask(syscall.Umask(mask))
						sg.begin()
						if raw {
							hdr, err = rpmutils.RewriteWithSignatures(f, s.out, a, b)
						} else {
							hdr, err = rpmutils.SignRpmFile(f, s.out, key(sg.key).Key, sg.opts)
						}
						sg.end()
					})
					if end != nil {
						got = end()
					}
					if err != nil {
						t.Fatalf("%s: %v", kind, err)
					}
					if hdr == nil {
						t.Errorf("%s: no header returned", kind)
					}
					if end == nil {
						got, err = s.delivered()
						if err != nil {
							t.Fatalf("%s: success reported, but the destination cannot be read: %v", kind, err)
						}
					}
				}
				if raw {
					checkRewritten(t, kind, data, got, a, b)
				} else {
					checkSigned(t, kind, data, got, sg)
				}
				if room && (kind == "input" || kind == "input, spelled differently") {
					after, err := snapshot(s.base)
					t.must(err)
					if after["in/in.rpm"].Ino == s.before["in/in.rpm"].Ino {
						t.Event("updates in place")
					}
				}
				s.elsewhere(kind, false, false)
				// a link's target is either untouched or has the whole result
				after, err := snapshot(s.base)
				t.must(err)
				for _, p := range s.change {
					if n := after[p]; n.Kind == "reg" && n.Data == string(got) {
						old, was := s.before[p]
						switch {
						case was && old.Ino == n.Ino:
							if old.Perm != n.Perm {
								t.Errorf("%s: updated in place, but the permissions of %q went from %o to %o", kind, p, old.Perm, n.Perm)
							}
						case n.Perm != 0o644 && (kind != "dangling symlink" || mask == 0o022):
							t.Errorf("%s: %q has permissions %o, not 644 (file creation mask %o)", kind, p, n.Perm, mask)
						}
						t.Event("permissions of delivered files")
					}
					if n := after[p]; n.Kind == "reg" && n.Data != string(got) && n.Data != s.before[p].Data {
						t.Errorf("%s: %q has %d bytes, neither the old nor the new content", kind, p, len(n.Data))
					}
				}
				t.Event("destinations checked")
				t.Seen("destination kind, room", fmt.Sprintf("%s/%v/%v", kind, room, raw))
				t.Sample(map[string]any{"destination": kind, "room": room, "raw": raw, "bytes": len(data)})
			}},
			{Name: "room to the byte", N: n(240, 8000), Run: func(t *T, i int) {
				// the original header is larger or smaller than what is needed
				// by a few words
				r := t.R
				p := signablePkg(r)
				raw := i%2 == 0
				sg := fixedSigner(r, "rsaA", "rsaB", "ed25519", "p256")
				a, b := randContent(r, 1+r.IntN(700)), randContent(r, 1+r.IntN(700))
				want := append(dropTags(p.Sig, sRSA, sPGP, sDSA, sGPG), bin(sRSA, b), bin(sPGP, a))
				if !raw {
					hdr, err := rpmutils.SignRpmStream(bytes.NewReader(p.Bytes()), key(sg.key).Key, sg.opts)
					if err != nil {
						t.Fatalf("stream: %v", err)
					}
					want = signedTags(p, hdr, t)
				}
				spare := []int{-24, -16, -8, 0, 8, 16, 24, 32}[i/2%8]
				if !fit(r, p, want, spare) {
					t.Trivial()
					return
				}
				data := p.Bytes()
				kind := []string{"input", "input", "input, spelled differently", "input that has hard links", "hard link to input", "existing", "namesake in another directory"}[i/16%7]
				t.Sig(data, kind)
				s := newScene(t, r, kind, data)
				f := s.open()
				defer f.Close()
				var err error
				t.inDir(s.cwd, func() {
					if raw {
						_, err = rpmutils.RewriteWithSignatures(f, s.out, a, b)
					} else {
						_, err = rpmutils.SignRpmFile(f, s.out, key(sg.key).Key, sg.opts)
					}
				})
				what := fmt.Sprintf("%s, %d bytes to spare", kind, spare)
				if err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				got, err := s.delivered()
				if err != nil {
					t.Fatalf("%s: success reported, but the destination cannot be read: %v", what, err)
				}
				if raw {
					checkRewritten(t, what, data, got, a, b)
				} else {
					checkSigned(t, what, data, got, sg)
				}
				s.elsewhere(what, false, false)
				t.Event("destinations checked")
				t.Event("headers with a known number of bytes to spare")
				t.Seen("bytes to spare", fmt.Sprint(spare, " ", kind))
			}},
			{Name: "large files", N: n(8, 40), Run: func(t *T, i int) {
				// payloads of hundreds of megabytes and beyond 4 GiB, mostly holes
				r := t.R
				type plan struct {
					dest string
					size int64
					room bool
				}
				plans := []plan{{"new", 300 << 20, false}, {"pipe", 4<<30 + 12345, false}, {"input", 6<<30 + 1, true}, {"input", 270<<20 + 1, false},
					{"existing", 140<<20 + 3, true}, {"symlink", 65<<20 + 1, false}, {"pipe", 2<<30 + 1, true}, {"existing", 33 << 20, false},
					{"new", 4<<30 + 5, false}, {"input", 2<<30 + 7, false}} // in the thorough tier
				pl := plans[i%len(plans)]
				p := signablePkg(r)
				slack(r, p, pl.room)
				p.SigOpt.TailPad = 0
				p.FinishSig(r)
				t.Sig(p.SigBytes, i)
				dir := t.Dir()
				in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
				f, err := os.Create(in)
				t.must(err)
				_, err = f.Write(p.Bytes()[:p.HeaderEnd()])
				t.must(err)
				t.must(f.Truncate(int64(p.HeaderEnd()) + pl.size))
				marks := append(farSpots(r, pl.size-100), 0, pl.size-100, pl.size-60)
				for _, at := range marks {
					_, err := f.WriteAt(randContent(r, 50), int64(p.HeaderEnd())+at)
					t.must(err)
				}
				t.must(f.Close())
				rest := int64(len(p.GenBytes)) + pl.size
				want, length := farFile(t, in, 96+len(p.SigBytes))
				if length != rest {
					t.Internal("%d bytes, not %d", length, rest)
				}
				target, dest := out, out
				var got chan func() (*refPkg, uint32, int64)
				switch pl.dest {
				case "input":
					target, dest = in, in
				case "existing":
					t.must(os.WriteFile(out, randContent(r, 5000), 0o644))
				case "symlink":
					target = filepath.Join(dir, "target.rpm")
					t.must(os.Symlink("target.rpm", out))
				case "pipe":
					t.must(syscall.Mkfifo(out, 0o600))
					got = make(chan func() (*refPkg, uint32, int64), 1)
					go func() {
						pf, err := os.Open(out)
						check(err)
						defer pf.Close()
						h, err := readSigHead(pf)
						sum, k := farSum(pf)
						got <- func() (*refPkg, uint32, int64) {
							if err != nil {
								t.Fatalf("%s: %v", pl.dest, err)
							}
							return h, sum, k
						}
					}()
				}
				f, err = os.Open(in)
				t.must(err)
				defer f.Close()
				a, b := randContent(r, r.IntN(700)), randContent(r, r.IntN(700))
				what := fmt.Sprintf("%d bytes to %s", pl.size, pl.dest)
				if _, err = rpmutils.RewriteWithSignatures(f, dest, a, b); err != nil {
					t.Fatalf("%s: %v", what, err)
				}
				var head *refPkg
				var sum uint32
				if got != nil {
					head, sum, length = (<-got)()
				} else {
					of, err := os.Open(target)
					t.must(err)
					defer of.Close()
					if head, err = readSigHead(of); err != nil {
						t.Fatalf("%s: the result is not a package: %v", what, err)
					}
					sum, length = farSum(of)
				}
				if length != rest || sum != want {
					t.Errorf("%s: %d bytes follow the signature header, originally %d; equal content: %v", what, length, rest, sum == want)
				}
				if !bytes.Equal(head.Lead, p.Lead) {
					t.Errorf("%s: lead changed", what)
				}
				orig := &refHdr{}
				for _, h := range p.Sig {
					orig.Ents = append(orig.Ents, refEnt{Tag: h.Tag, Type: h.Type, Count: h.Count, Data: h.Data})
				}
				if err := wellFormedSig(head.Sig); err != nil {
					t.Errorf("%s: signature header: %v", what, err)
				}
				if err := sigTagsEqual(orig, head.Sig, sRSA, sPGP, sDSA, sGPG); err != nil {
					t.Errorf("%s: signature header: %v", what, err)
				}
				for tag, want := range map[int][]byte{sRSA: b, sPGP: a} {
					if e := head.Sig.get(tag); e == nil || !bytes.Equal(e.Data, want) {
						t.Errorf("%s: tag %d does not hold the given signature", what, tag)
					}
				}
				names, err := os.ReadDir(dir)
				t.must(err)
				for _, e := range names {
					if n := e.Name(); n != "in.rpm" && n != "out.rpm" && n != "target.rpm" {
						t.Errorf("%s: %q was left behind", what, n)
					}
				}
				if pl.dest != "input" {
					if s, k := farFile(t, in, 96+len(p.SigBytes)); s != want || k != rest {
						t.Errorf("%s: the input changed", what)
					}
				}
				t.Event("large files written")
				t.Event("destinations checked")
				t.Sample(map[string]any{"destination": pl.dest, "bytes": pl.size, "room": pl.room})
			}},
			{Name: "sequence", N: n(60, 2500), Run: func(t *T, i int) {
				// one file signed repeatedly under its names
				r := t.R
				p := signablePkg(r)
				slack(r, p, i%2 == 0)
				s := newScene(t, r, []string{"input", "hard link to input", "symlink to input", "new", "input that has hard links"}[i%5], p.Bytes())
				t.Sig(p.Bytes(), s.kind)
				cur := map[string][]byte{}
				for k := 0; k < 4; k++ {
					f := s.open()
					orig, err := os.ReadFile(s.in)
					t.must(err)
					sg := randSigner(r)
					sg.begin()
					_, err = rpmutils.SignRpmFile(f, s.out, key(sg.key).Key, sg.opts)
					sg.end()
					f.Close()
					if err != nil {
						t.Fatalf("signing %d: %v", k, err)
					}
					got, err := s.delivered()
					if err != nil {
						t.Fatalf("signing %d: %v", k, err)
					}
					checkSigned(t, fmt.Sprintf("signing %d to %s", k, s.kind), orig, got, sg)
					s.elsewhere(fmt.Sprintf("signing %d to %s", k, s.kind), false, false)
					cur[s.out] = got
					t.Event("destinations checked")
				}
			}},
		},
	})
}

// readSigHead reads lead and signature header.
func readSigHead(rd io.Reader) (*refPkg, error) {
	b := make([]byte, 112)
	if _, err := io.ReadFull(rd, b); err != nil {
		return nil, err
	}
	k := 16*be32(b[104:]) + (be32(b[108:])+7)&^7
	if k < 0 || k > 1<<28 {
		return nil, fmt.Errorf("signature header of %d bytes", k)
	}
	b = append(b, make([]byte, k)...)
	if _, err := io.ReadFull(rd, b[112:]); err != nil {
		return nil, err
	}
	h, err := parseHeader(b[96:], true)
	return &refPkg{Lead: b[:96], Sig: h}, err
}

// farSum sums up the rest of a stream.
func farSum(rd io.Reader) (uint32, int64) {
	h := crc32.New(crc32.MakeTable(crc32.Castagnoli))
	k, err := io.CopyBuffer(struct{ io.Writer }{h}, struct{ io.Reader }{rd}, make([]byte, 1<<20))
	check(err)
	return h.Sum32(), k
}

func farFile(t *T, path string, from int) (sum uint32, length int64) {
	f, err := os.Open(path)
	t.must(err)
	defer f.Close()
	_, err = f.Seek(int64(from), 0)
	t.must(err)
	sum, length = farSum(f)
	return sum, length
}
