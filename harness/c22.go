package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C22: a failed or interrupted file signing leaves the destination intact.

// kinds of destination that are replaced as a whole
var replacedKinds = []string{"new", "existing", "input", "hard link to input", "input that has hard links", "symlink to input", "symlink to another file",
	"existing with hard links", "read-only file", "relative", "through a symlinked directory", "relative in current directory", "symlink to hard link of input",
	"symlink to symlink to input", "input, spelled differently", "name of a temporary kind", "file that replaced the input", "namesake in another directory"}

// growing is a package whose signature header has to grow when signed.
func growing(r *rand.Rand) *Pkg {
	p := signablePkg(r)
	p.Sig = dropTags(p.Sig, sRSA, sPGP, sDSA, sGPG)
	slack(r, p, false)
	return p
}

// attempt is one signing in this process.
type attempt struct {
	raw  bool
	sg   *signer
	a, b []byte
}

func newAttempt(r *rand.Rand) *attempt {
	return &attempt{raw: r.IntN(4) == 0, sg: randSigner(r), a: randContent(r, 300+r.IntN(400)), b: randContent(r, 300+r.IntN(400))}
}

func (x *attempt) run(s *scene, f *os.File) (err error) {
	s.t.inDir(s.cwd, func() {
		_, _ = f.Seek(0, 0)
		x.sg.begin()
		if x.raw {
			_, err = rpmutils.RewriteWithSignatures(f, s.out, x.a, x.b)
		} else {
			_, err = rpmutils.SignRpmFile(f, s.out, key(x.sg.key).Key, x.sg.opts)
		}
		x.sg.end()
	})
	return err
}

// complete judges a delivered package.
func (x *attempt) complete(t *T, what string, orig, got []byte) {
	if x.raw {
		checkRewritten(t, what, orig, got, x.a, x.b)
	} else {
		checkSigned(t, what, orig, got, x.sg)
	}
}

// limits picks sizes at which the output cannot grow any more.
func limits(t *T, size, k int) []int {
	if t.Tier == "thorough" && size < 4000 {
		k = size
	}
	m := map[int]bool{}
	for _, v := range []int{0, 1, 95, 96, 97, 104, 111, 112, 113, size - 1, size - 2, size / 2} {
		if v >= 0 && v < size {
			m[v] = true
		}
	}
	for j := 0; j < k; j++ {
		v := t.R.IntN(size)
		if k == size {
			v = j
		}
		m[v] = true
	}
	var out []int
	for v := range m {
		out = append(out, v)
	}
	sort.Ints(out)
	return out
}

// oldOrNew judges the destination after a crash.
func oldOrNew(s *scene, what string, finished bool, complete func(got []byte)) {
	t := s.t
	after, err := snapshot(s.base)
	t.must(err)
	for _, p := range s.change {
		a, okA := s.before[p]
		b, okB := after[p]
		switch {
		case okA == okB && a.Kind == b.Kind && a.Data == b.Data:
			if finished && b.Kind == "reg" {
				t.Errorf("%s: success reported, but %q has the old content", what, p)
			}
			t.Event("crashes that left the old content")
		case okB && b.Kind == "reg":
			complete([]byte(b.Data))
			t.Event("crashes after delivery")
		case !okB:
			t.Errorf("%s: %q is gone", what, p)
		default:
			t.Errorf("%s: %q was %s, is %s", what, p, a.Kind, b.Kind)
		}
	}
	s.elsewhere(what, false, true)
}

func init() {
	register(&Check{
		ID:   "C22",
		Rule: "each case is a package, a destination of a kind that is replaced as a whole, and a fault: a limit on the size of files at every chosen byte of the output (all bytes in the thorough tier), an unusable destination or input, a system call that fails or never returns (strace), or the death of the process at a byte or time; the tree is compared with its snapshot after each failure; distinct by package, destination and fault",
		Require: map[string]int64{"failing writes": 3000, "failed attempts judged": 3500, "crashes at a byte of the output": 150, "unusable destinations": 100, "unusable inputs": 100,
			"kills at a time": 20, "large files that did not fit": 18, "failures of a delivery reported": 150},
		Assumptions: []string{"a crash is the death of the process, not of the machine: what was written is not lost", "destinations that are updated in place, pipes, standard output and symbolic links to nothing are not replaced as a whole and are left out"},
		Groups: []Group{
			{Name: "write limit", N: n(len(replacedKinds)*12, len(replacedKinds)*200), Run: func(t *T, i int) {
				r := t.R
				kind := replacedKinds[i%len(replacedKinds)]
				p := growing(r)
				data := p.Bytes()
				x := newAttempt(r)
				s := newScene(t, r, kind, data)
				t.Sig(data, kind, x.raw)
				f := s.open()
				defer f.Close()
				// the size of the result, from a complete run elsewhere
				s2 := newScene(t, r, "new", data)
				f2 := s2.open()
				err := x.run(s2, f2)
				f2.Close()
				if err != nil {
					t.Fatalf("signing: %v", err)
				}
				full, err := s2.delivered()
				if err != nil {
					t.Fatalf("signing: %v", err)
				}
				what := ""
				// signatures by some algorithms vary in length by a few bytes
				for _, k := range limits(t, len(full)-10, 14) {
					what = fmt.Sprintf("%s, no room beyond %d of about %d bytes", kind, k, len(full))
					var err error
					withFileLimit(k, func() { err = x.run(s, f) })
					t.SubSig(k)
					t.Event("failing writes")
					if err == nil {
						t.Errorf("%s: success reported", what)
						break
					}
					s.elsewhere(what, true, false)
					t.Event("failed attempts judged")
					if len(t.failed) > 0 {
						return
					}
				}
				if err := x.run(s, f); err != nil {
					t.Fatalf("%s: after failed attempts: %v", kind, err)
				}
				got, err := s.delivered()
				if err != nil {
					t.Fatalf("%s: after failed attempts: %v", kind, err)
				}
				x.complete(t, kind+": after failed attempts", data, got)
				s.elsewhere(kind, false, false)
				t.Seen("destination kind", kind)
				t.Sample(map[string]any{"destination": kind, "output_bytes": len(full), "last": what})
			}},
			{Name: "large, write limit", N: n(len(replacedKinds), len(replacedKinds)*20), Run: func(t *T, i int) {
				// no room late in a large file
				r := t.R
				kind := replacedKinds[i%len(replacedKinds)]
				p := growing(r)
				p.Payload = bytes.Repeat(randContent(r, 1<<16), 16*(1+r.IntN(40)))
				p.Finish(r)
				slack(r, p, false)
				data := p.Bytes()
				x := newAttempt(r)
				x.raw = i%3 > 0
				s := newScene(t, r, kind, data)
				t.Sig(p.SigBytes, len(p.Payload), kind, x.raw)
				f := s.open()
				defer f.Close()
				size := len(data) // the result is longer
				for _, k := range []int{size - 1, size - 4097, size - r.IntN(size), size - r.IntN(1<<20), size - size/16} {
					what := fmt.Sprintf("%s, no room beyond %d of more than %d bytes", kind, k, size)
					var err error
					withFileLimit(k, func() { err = x.run(s, f) })
					t.SubSig(k)
					t.Event("failing writes")
					if err == nil {
						t.Errorf("%s: success reported", what)
					}
					s.elsewhere(what, true, false)
					t.Event("failed attempts judged")
					if len(t.failed) > 0 {
						return
					}
				}
				if err := x.run(s, f); err != nil {
					t.Fatalf("%s: after failed attempts: %v", kind, err)
				}
				got, err := s.delivered()
				if err != nil {
					t.Fatalf("%s: after failed attempts: %v", kind, err)
				}
				x.complete(t, kind+": after failed attempts", data, got)
				s.elsewhere(kind, false, false)
				t.Event("large files that did not fit")
			}},
			{Name: "unusable destination", N: n(130, 4000), Run: func(t *T, i int) {
				r := t.R
				p := growing(r)
				data := p.Bytes()
				s := newScene(t, r, []string{"new", "existing", "relative"}[r.IntN(3)], data)
				x := newAttempt(r)
				at := func(p string) string { return filepath.Join(s.base, p) }
				what := ""
				switch i % 13 {
				case 0:
					what, s.out = "directory", at("out/sub")
				case 1:
					what, s.out = "missing directory", at("out/nope/out.rpm")
				case 2:
					what, s.out = "read-only directory", at("out/ro/out.rpm")
					t.must(os.Mkdir(at("out/ro"), 0o755))
					if r.IntN(2) == 0 {
						t.must(os.WriteFile(s.out, []byte("old"), 0o644))
					}
					t.must(os.Chmod(at("out/ro"), 0o555))
				case 3:
					what, s.out = "empty name", ""
				case 4:
					what, s.out = "below a file", at("out/neighbour/out.rpm")
				case 5:
					what, s.out = "trailing slash", at("out/new.rpm")+"/"
				case 6:
					what, s.out = "file that cannot be renamed over", t.stickyFile(t.env.shard%8)
				case 7:
					what, s.out = "long name", at("out/"+strings.Repeat("x", 250+r.IntN(50)))
				case 8:
					what, s.out = "symlink loop", at("out/loop/out.rpm")
					t.must(os.Symlink("loop", at("out/loop")))
				case 9:
					what, s.out = "NUL in name", at("out/x\x00y")
				case 10:
					what, s.out = "the scratch directory itself", s.base
				case 11:
					what, s.out = "current directory", []string{".", "..", "out/.", "out/sub/.."}[r.IntN(4)]
				case 12:
					what, s.out = "symlink to directory", at("out/dirlink")
					t.must(os.Symlink("sub", at("out/dirlink")))
				}
				t.Sig(data, what)
				f := s.open()
				defer f.Close()
				if r.IntN(4) == 0 {
					defer otherTempDir(t, s)()
				}
				err := x.run(s, f)
				if i%13 == 6 {
					b, err := os.ReadFile(s.out)
					t.must(err)
					if string(b) != "owned by somebody else" {
						t.Errorf("%s: content changed", what)
					}
					ents, err := os.ReadDir(filepath.Dir(s.out))
					t.must(err)
					for _, e := range ents {
						if st, err := e.Info(); err == nil && strings.HasPrefix(e.Name(), filepath.Base(s.out)) && len(e.Name()) > 2 && st.Sys().(*syscall.Stat_t).Uid == uint32(os.Getuid()) && t.env.shards <= 8 {
							t.Errorf("%s: %q was left behind", what, e.Name())
							os.Remove(filepath.Join(filepath.Dir(s.out), e.Name()))
						}
					}
				}
				// replacing a file needs no permission to write it
				if err == nil {
					if i%13 != 7 && (i%13 != 6 || os.Getuid() != 0) {
						t.Errorf("%s: success reported", what)
					}
				} else {
					s.elsewhere(what, true, false)
					t.Event("failed attempts judged")
				}
				t.Event("unusable destinations")
				t.Seen("unusable destination", what)
				if i%13 == 2 {
					t.must(os.Chmod(at("out/ro"), 0o755))
				}
			}},
			{Name: "unusable input", N: n(len(replacedKinds)*20, len(replacedKinds)*600), Run: func(t *T, i int) {
				r := t.R
				kind := replacedKinds[i%len(replacedKinds)]
				d := randDigests(r)
				d.SHA256, d.MD5 = "ok", "ok"
				p := genPkg(r, PkgOpt{Digests: &d, RawPayload: 200 + r.IntN(3000)})
				slack(r, p, r.IntN(3) == 0)
				x := newAttempt(r)
				what := ""
				mode := r.IntN(9)
				data := p.Bytes()
				switch mode {
				case 0:
					what = "corrupted payload"
					x.raw = false
					data[p.HeaderEnd()+r.IntN(len(p.Payload))] ^= 1 << r.IntN(8)
				case 1:
					what = "corrupted general header"
					data[96+len(p.SigBytes)+8+r.IntN(len(p.GenBytes)-8)] ^= 1 << r.IntN(8)
				case 2:
					what = "truncated payload"
					x.raw = false
					data = data[:len(data)-1-r.IntN(len(p.Payload))]
				case 3:
					what = "truncated headers"
					data = data[:r.IntN(p.HeaderEnd())]
				case 4:
					what = "closed file"
				case 5:
					what = "file opened for writing only"
				case 6:
					what = "pipe that cannot seek"
				case 7:
					what = "hash that OpenPGP lacks"
					x.raw = false
					x.sg.opts = &rpmutils.SignatureOptions{Hash: []crypto.Hash{crypto.SHA512_224, crypto.SHA512_256}[r.IntN(2)]}
				case 8:
					what = "directory"
				}
				s := newScene(t, r, kind, data)
				t.Sig(data, kind, what)
				f := s.open()
				switch mode {
				case 4:
					f.Close()
				case 5:
					g, err := os.OpenFile(f.Name(), os.O_WRONLY, 0)
					if s.cwd != s.base || !filepath.IsAbs(s.inArg) {
						g, err = os.OpenFile(s.in, os.O_WRONLY, 0)
					}
					t.must(err)
					f.Close()
					f = g
				case 6:
					pr, pw, err := os.Pipe()
					t.must(err)
					go func() {
						_, _ = pw.Write(data)
						pw.Close()
					}()
					f.Close()
					f = pr
				case 8:
					f.Close()
					var err error
					f, err = os.Open(s.base)
					t.must(err)
				}
				defer f.Close()
				err := x.run(s, f)
				if err == nil {
					t.Errorf("%s to %s: success reported", what, kind)
				}
				s.elsewhere(what+" to "+kind, true, false)
				t.Event("failed attempts judged")
				t.Event("unusable inputs")
				t.Seen("unusable input", what)
			}},
			{Name: "crash at a byte", N: n(len(replacedKinds)*3, len(replacedKinds)*40), Run: func(t *T, i int) {
				r := t.R
				kind := replacedKinds[i%len(replacedKinds)]
				if kind == "file that replaced the input" {
					kind = "existing"
				}
				p := growing(r)
				data := p.Bytes()
				op := []string{"sign", "sign", "rewrite"}[r.IntN(3)]
				x := &attempt{raw: op == "rewrite", a: randContent(r, 300), b: randContent(r, 300)}
				x.a, x.b = []byte(strings.Repeat("p", 400)), []byte(strings.Repeat("r", 500))
				x.sg = &signer{key: []string{"rsaA", "ed25519"}[r.IntN(2)], hash: crypto.SHA256, from: time.Unix(1600000000, 0), to: time.Unix(1600000000, 0)}
				s := newScene(t, r, kind, data)
				t.Sig(data, kind, op)
				s.open().Close()
				size := len(data) + 300
				for _, k := range limits(t, size, 0) {
					if t.Tier != "thorough" && r.IntN(2) == 0 {
						k = r.IntN(size)
					}
					_, e := s.signProcess(op, x.sg.key, k, nil, string(x.a), string(x.b))
					what := fmt.Sprintf("%s to %s, killed at byte %d", op, kind, k)
					if !bytes.Contains(e, []byte("START")) {
						t.Internal("%s: %s", what, e)
					}
					t.SubSig(k)
					switch {
					case bytes.Contains(e, []byte("FAILED")):
						s.elsewhere(what, true, false)
						t.Event("failed attempts judged")
					case bytes.Contains(e, []byte("DONE")):
						oldOrNew(s, what, true, func(got []byte) { x.complete(t, what, data, got) })
						return
					default:
						t.Event("crashes at a byte of the output")
						s.elsewhere(what, true, true)
					}
					// sweep up
					after, err := snapshot(s.base)
					t.must(err)
					for p := range after {
						if _, ok := s.before[p]; !ok {
							t.must(os.Remove(filepath.Join(s.base, p)))
							t.Event("temporary files found after a crash")
						}
					}
					if len(t.failed) > 0 {
						return
					}
				}
				t.Seen("destination kind", kind)
			}},
			{Name: "kill at a time", N: n(40, 1500), Run: func(t *T, i int) {
				r := t.R
				kind := replacedKinds[i%len(replacedKinds)]
				if kind == "file that replaced the input" {
					kind = "existing"
				}
				p := growing(r)
				p.Payload = randContent(r, 3000000)
				p.Finish(r)
				slack(r, p, false)
				data := p.Bytes()
				x := &attempt{raw: i%2 == 0, a: []byte(strings.Repeat("p", 400)), b: []byte(strings.Repeat("r", 500))}
				x.sg = &signer{key: "ed25519", hash: crypto.SHA256, from: time.Unix(1600000000, 0), to: time.Unix(1600000000, 0)}
				op := "sign"
				if x.raw {
					op = "rewrite"
				}
				s := newScene(t, r, kind, data)
				t.Sig(data, kind, op, i)
				s.open().Close()
				d := time.Duration(1+r.IntN(3000)) * time.Microsecond
				if !x.raw {
					d = time.Duration(1+r.IntN(25000)) * time.Microsecond
				}
				_, e := s.signProcessFor(d, op, x.sg.key, -1, nil, string(x.a), string(x.b))
				what := fmt.Sprintf("%s to %s, killed after %v", op, kind, d)
				if !bytes.Contains(e, []byte("START")) {
					t.Internal("%s: %s", what, e)
				}
				if bytes.Contains(e, []byte("FAILED")) {
					t.Fatalf("%s: %s", what, e)
				}
				oldOrNew(s, what, bytes.Contains(e, []byte("DONE")), func(got []byte) { x.complete(t, what, data, got) })
				t.Event("kills at a time")
			}},
			{Name: "system call faults", N: n(180, 9000), Run: func(t *T, i int) {
				r := t.R
				if !straceWorks() {
					t.Trivial()
					t.Event("strace cannot be used here")
					return
				}
				kind := replacedKinds[(i/len(sysFaults))%len(replacedKinds)]
				if kind == "file that replaced the input" {
					kind = "existing"
				}
				p := growing(r)
				data := p.Bytes()
				x := &attempt{raw: r.IntN(3) == 0, a: []byte(strings.Repeat("p", 400)), b: []byte(strings.Repeat("r", 500))}
				x.sg = &signer{key: "ed25519", hash: crypto.SHA256, from: time.Unix(1600000000, 0), to: time.Unix(1600000000, 0)}
				op := "sign"
				if x.raw {
					op = "rewrite"
				}
				s := newScene(t, r, kind, data)
				s.open().Close()
				sf := sysFaults[i%len(sysFaults)]
				what, when := []string{"error=EIO", "error=ENOSPC", "signal=KILL"}[r.IntN(3)], 1+r.IntN(sf.max)
				inject := fmt.Sprintf("inject=%s:%s:when=%d%s", sf.calls, what, when, []string{"", "", "+"}[r.IntN(3)])
				t.Sig(data, kind, op, inject)
				_, e := s.signProcess(op, x.sg.key, -1, []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + sf.calls, "-e", inject}, string(x.a), string(x.b))
				what = fmt.Sprintf("%s to %s, %s", op, kind, inject)
				switch {
				case bytes.Contains(e, []byte("FAILED")):
					s.elsewhere(what, true, false)
					t.Event("failed attempts judged")
					t.Event("system call faults reported")
					t.Seen("system calls whose failure was reported", sf.calls)
				case bytes.Contains(e, []byte("DONE")):
					oldOrNew(s, what, true, func(got []byte) { x.complete(t, what, data, got) })
					s.elsewhere(what, false, false)
					t.Event("system call faults survived")
				default:
					oldOrNew(s, what, false, func(got []byte) { x.complete(t, what, data, got) })
					t.Event("system call faults that ended the process")
				}
			}},
			{Name: "no full delivery", N: n(180, 6000), Run: func(t *T, i int) {
				// destinations that are not replaced, and do not take everything
				r := t.R
				p := signablePkg(r)
				p.Payload = randContent(r, 150000+r.IntN(100000))
				p.Finish(r)
				slack(r, p, i%5 < 2)
				data := p.Bytes()
				x := newAttempt(r)
				kind, limit, what := "input", -1, ""
				switch i % 5 {
				case 0, 1: // room in place, but it cannot be written
					kind = []string{"input", "input", "input, spelled differently", "relative"}[r.IntN(4)]
					limit = r.IntN(96 + len(p.SigBytes))
					if kind == "relative" {
						limit = r.IntN(len(data))
					}
					what = fmt.Sprintf("%s, with room, unwritable beyond %d of %d", kind, limit, 96+len(p.SigBytes))
				case 2:
					kind = []string{"pipe", "symlink to pipe"}[r.IntN(2)]
					what = kind + " whose reader leaves"
				case 3:
					what = "standard output that is full"
				case 4:
					what = "standard output whose reader leaves"
				}
				s := newScene(t, r, kind, data)
				t.Sig(data, what, x.raw)
				f := s.open()
				defer f.Close()
				leave := int64(r.IntN(len(data) - 100000))
				left := make(chan bool, 1)
				out := os.Stdout
				switch i % 5 {
				case 2:
					go func() {
						rd, err := os.Open(s.pipe)
						check(err)
						_, _ = io.CopyN(io.Discard, rd, leave)
						rd.Close()
						left <- true
					}()
				case 3:
					full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
					t.must(err)
					defer full.Close()
					s.out, os.Stdout = "-", full
				case 4:
					rd, wr, err := os.Pipe()
					t.must(err)
					defer wr.Close()
					go func() {
						_, _ = io.CopyN(io.Discard, rd, leave)
						rd.Close()
						left <- true
					}()
					s.out, os.Stdout = "-", wr
				}
				var err error
				if limit >= 0 {
					withFileLimit(limit, func() { err = x.run(s, f) })
				} else {
					err = x.run(s, f)
				}
				os.Stdout = out
				if i%5 == 2 {
					// release a reader nobody ever wrote to
					for done := false; !done; {
						select {
						case <-left:
							done = true
						case <-time.After(5 * time.Millisecond):
							if w, err := os.OpenFile(s.pipe, os.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
								w.Close()
							}
						}
					}
				}
				if err == nil {
					if limit < 0 {
						t.Errorf("%s: success reported", what)
					} else if got, err := s.delivered(); err != nil {
						t.Errorf("%s: success reported, but: %v", what, err)
					} else {
						x.complete(t, what, data, got)
					}
				} else {
					t.Event("failed attempts judged")
					t.Event("failures of a delivery reported")
				}
				s.elsewhere(what, i%5 >= 3, false)
				t.Seen("incomplete delivery", []string{"in place", "in place", "pipe", "full standard output", "left standard output"}[i%5])
			}},
			{Name: "closing the result fails", N: n(36, 900), Run: func(t *T, i int) {
				// some file systems report only then that data was lost
				r := t.R
				if !straceWorks() {
					t.Trivial()
					t.Event("strace cannot be used here")
					return
				}
				kind := replacedKinds[i%len(replacedKinds)]
				if kind == "file that replaced the input" {
					kind = "existing"
				}
				p := growing(r)
				data := p.Bytes()
				x := &attempt{raw: i/2%2 == 0, a: []byte(strings.Repeat("p", 400)), b: []byte(strings.Repeat("r", 500))}
				x.sg = &signer{key: "ed25519", hash: crypto.SHA256, from: time.Unix(1600000000, 0), to: time.Unix(1600000000, 0)}
				op := "sign"
				if x.raw {
					op = "rewrite"
				}
				log := filepath.Join(t.Dir(), "log")
				for when := 1; when <= 8; when++ {
					s := newScene(t, r, kind, data)
					s.open().Close()
					_, e := s.signProcess(op, x.sg.key, -1, []string{"strace", "-f", "-y", "-qq", "-o", log, "-e", "trace=close", "-e", fmt.Sprint("inject=close:error=", []string{"EIO", "ENOSPC", "EDQUOT"}[i%3], ":when=", when)}, string(x.a), string(x.b))
					b, err := os.ReadFile(log)
					t.must(err)
					hit := false
					for _, line := range strings.Split(string(b), "\n") {
						if strings.Contains(line, "(INJECTED)") && strings.Contains(line, "<"+s.base) && !strings.Contains(line, "<"+s.in+">") {
							hit = true
						}
					}
					if !hit {
						continue
					}
					t.Sig(data, kind, op)
					what := op + " to " + kind + ", failing to close the result"
					if bytes.Contains(e, []byte("DONE")) {
						t.Errorf("%s: success reported", what)
						return
					}
					if !bytes.Contains(e, []byte("FAILED")) {
						t.Internal("%s: %s", what, e)
					}
					s.elsewhere(what, true, false)
					t.Event("failed attempts judged")
					t.Event("failures to close the result reported")
					return
				}
				t.Trivial()
			}},
		},
	})
}

// sysFaults are calls that signing makes, and how often a thread may make them.
var sysFaults = []struct {
	calls string
	max   int
}{
	{"rename,renameat,renameat2", 1},
	{"fchmod", 1},
	{"copy_file_range,sendfile,splice", 3},
	{"write,writev,pwrite64", 8},
	{"lseek", 3},
	{"openat", 3},
	{"close", 2},
	{"fstat,newfstatat,statx", 5},
	{"read,pread64", 20},
}

var straceState int

// straceWorks tells whether this environment allows tracing a child.
func straceWorks() bool {
	if straceState == 0 {
		straceState = -1
		out, err := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=getppid", "-e", "inject=getppid:error=EIO:when=1", "echo", "ok").Output()
		if err == nil && strings.TrimSpace(string(out)) == "ok" {
			straceState = 1
		}
	}
	return straceState == 1
}
