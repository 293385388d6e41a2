package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C13: finished or failed operations release all their resources.

// given hands the package over as a reader that notices being closed; data
// may be cut and end with an error.
func given(r *rand.Rand, data []byte, fail bool) *meter {
	f := &fragReader{data: data, r: r, style: []int{0, 0, 3, 5}[r.IntN(4)]}
	if fail {
		f.err = errBoom
	}
	return &meter{r: f}
}

// spoilArchive makes an archive or payload that fails at some point.
func spoilArchive(r *rand.Rand, p *Pkg, comp string) string {
	kind := []string{"cut archive", "cut payload", "bit flip in payload", "bad entry header", "no payload", "entry of unknown type", "flip in archive"}[r.IntN(7)]
	arch := append([]byte{}, p.Archive...)
	switch kind {
	case "cut archive":
		arch = arch[:r.IntN(len(arch))]
	case "bad entry header":
		at := r.IntN(len(arch)/4) * 4
		copy(arch[at:], "0x0x0x-1-1-1-1-1zzzz")
	case "entry of unknown type":
		arch, _, _ = buildCpio([]*cpioEnt{newcEnt("./first", mReg|0o644, []byte("data")), newcEnt("./odd", 0o150000, nil)}, 0)
	case "flip in archive":
		for k := 0; k < 1+r.IntN(20); k++ {
			arch[r.IntN(len(arch))] ^= byte(1 << r.IntN(8))
		}
	}
	layout := 0
	if comp != "" && comp != "uncompressed" {
		layout = r.IntN(compressLayouts[comp])
	}
	p.Payload = compress(r, comp, arch, layout)
	switch kind {
	case "cut payload":
		p.Payload = p.Payload[:r.IntN(len(p.Payload))]
	case "bit flip in payload":
		p.Payload[r.IntN(len(p.Payload))] ^= byte(1 << r.IntN(8))
	case "no payload":
		p.Payload = nil
	}
	p.FinishSig(r)
	return kind
}

// iterateAll iterates a payload until it ends or fails; afterwards nothing may
// be held. done says whether it came to that.
func iterateAll(r *rand.Rand, pr rpmutils.PayloadReader, plan func(int) int, size int) (done bool, how string) {
	buf := make([]byte, size)
	for i := 0; i < 10000; i++ {
		_, err := pr.Next()
		if err == io.EOF {
			return true, "end of archive"
		} else if err != nil {
			if strings.Contains(err.Error(), "invalid file") {
				return false, "unknown file" // neither the end nor a read failure
			}
			return true, "Next fails"
		}
		want := plan(i)
		for k := 0; want < 0 || k < want; {
			c, err := pr.Read(buf)
			k += c
			if err == io.EOF {
				break
			} else if err != nil {
				return true, "Read fails"
			}
		}
	}
	return false, "endless"
}

// destFor prepares a destination for extraction, possibly one that makes it fail.
func destFor(t *T, r *rand.Rand, p *Pkg) (dest, kind string) {
	dir := t.Dir()
	dest = filepath.Join(dir, "out")
	switch r.IntN(8) {
	case 0:
		t.must(os.WriteFile(dest, []byte("x"), 0o644))
		return dest, "destination is a file"
	case 1:
		t.must(os.Mkdir(dest, 0o555))
		return dest, "destination not writable"
	case 2, 3, 4: // something is in the way of one of the files
		if len(p.Files) > 0 {
			f := p.Files[r.IntN(len(p.Files))]
			at := filepath.Join(dest, f.Path)
			t.must(os.MkdirAll(filepath.Dir(at), 0o755))
			switch r.IntN(3) {
			case 0:
				t.must(os.MkdirAll(filepath.Join(at, "x"), 0o755))
			case 1:
				t.must(os.WriteFile(at, []byte("old"), 0o400))
			case 2:
				t.must(os.Symlink("/proc/self/nowhere", at))
			}
			return dest, "something in the way"
		}
	}
	return dest, "new destination"
}

func init() {
	both := []string{"cgo", "nocgo"}
	register(&Check{
		ID:    "C13",
		Level: "fault_enumeration",
		Rule:  "each case runs one operation (payload iteration, extraction, file signing, rewriting) to success or to a failure injected at some point, and compares goroutines, open descriptors and close calls on the given reader or file before and after with the garbage collector off; native cases repeat one scenario many times and watch the C allocator's bytes in use; distinct by input, operation and failure point",
		Assumptions: []string{
			"PayloadReaderExtended is meant by payload iteration; the reader of the deprecated PayloadReader offers no way to be closed",
			"a payload entry that matches no listed file is not a read failure",
			"goroutines get 6 s to wind down",
		},
		Require: map[string]int64{"operations watched for goroutines and descriptors": 3000, "native scenarios repeated": 60},
		Groups: []Group{
			{Name: "iteration", Variants: both, N: n(700, 30000), Run: func(t *T, i int) {
				r := t.R
				comp := compressors[i%len(compressors)]
				p := genPkg(r, PkgOpt{MaxFiles: 6, Compressor: comp, Stripped: r.IntN(3) == 0})
				kind := "intact"
				if i/len(compressors)%3 > 0 {
					kind = spoilArchive(r, p, comp)
				}
				t.Sig(p.Bytes())
				fail := r.IntN(2) == 0 && kind != "intact"
				m := given(r, p.Bytes(), fail)
				plan, size := randPlan(r), 1+r.IntN(5000)
				what := fmt.Sprintf("iterating a %s payload (%s)", comp, kind)
				how := ""
				released(t, what, func() {
					rpm, err := rpmutils.ReadRpm(m)
					if err != nil {
						how = "header refused"
						return
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						how = "payload refused"
						return
					}
					var done bool
					done, how = iterateAll(r, pr, plan, size)
					if !done {
						// let go of it the way a user can
						for k := 0; k < 10000; k++ {
							if _, err := pr.Next(); err != nil && !strings.Contains(err.Error(), "invalid file") {
								break
							}
						}
					}
					what += ": " + how
				})
				t.Seen("compressor / input / outcome", comp+" / "+kind+" / "+how)
				if m.closed > 0 {
					t.Errorf("%s: the reader given was closed", what)
				}
			}},
			{Name: "large", Variants: both, N: n(63, 1500), Run: func(t *T, i int) {
				r := t.R
				comp := compressors[i%len(compressors)]
				p := bigPkg(r, comp, r.IntN(3) == 0, []int{200000, 700000, 2500000}[r.IntN(3)])
				kind := "intact"
				if i/len(compressors)%3 > 0 {
					kind = spoilArchive(r, p, comp)
				}
				t.Sig(p.Bytes())
				fail := r.IntN(2) == 0 && kind != "intact"
				m := given(r, p.Bytes(), fail)
				plan, size := randPlan(r), 1000+r.IntN(100000)
				what := fmt.Sprintf("iterating a large %s payload (%s)", comp, kind)
				how := ""
				released(t, what, func() {
					rpm, err := rpmutils.ReadRpm(m)
					if err != nil {
						how = "header refused"
						return
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						how = "payload refused"
						return
					}
					var done bool
					done, how = iterateAll(r, pr, plan, size)
					if !done {
						// let go of it the way a user can
						for k := 0; k < 10000; k++ {
							if _, err := pr.Next(); err != nil && !strings.Contains(err.Error(), "invalid file") {
								break
							}
						}
					}
					what += ": " + how
				})
				t.Seen("compressor / input / outcome", comp+" / "+kind+" / "+how)
				if m.closed > 0 {
					t.Errorf("%s: the reader given was closed", what)
				}
				if !p.stripped() {
					m := given(r, p.Bytes(), fail)
					dest := filepath.Join(t.Dir(), "x")
					released(t, fmt.Sprintf("expanding a large %s payload (%s)", comp, kind), func() {
						if rpm, err := rpmutils.ReadRpm(m); err == nil {
							_ = rpm.ExpandPayload(dest)
						}
					})
				}
				t.Event("large payloads")
			}},
			{Name: "refused", Variants: both, N: n(120, 4000), Run: func(t *T, i int) {
				// payload readers that are not handed out at all
				r := t.R
				comp := compressors[i%len(compressors)]
				p := genPkg(r, PkgOpt{MaxFiles: 5, Compressor: comp})
				kind := i / len(compressors) % 4
				switch kind {
				case 0: // file list unusable
					p.Gen = append(dropTags(p.Gen, gFileModes, gBasenames, gDirnames, gDirIndexes, gOldFilenames), strArr(gBasenames, "a", "b"), strArr(gDirnames, "/"), i32(gDirIndexes, 0))
				case 1:
					p.Gen = append(dropTags(p.Gen, gPayloadFormat), strTag(gPayloadFormat, "drpm"))
				case 2:
					p.Gen = append(dropTags(p.Gen, gPayloadCompressor), strTag(gPayloadCompressor, "lrzip"))
				case 3: // bad first bytes
					p.Payload = append([]byte{1, 2, 3}, p.Payload...)
				}
				p.Finish(r)
				t.Sig(p.Bytes())
				m := given(r, p.Bytes(), false)
				dir := t.Dir()
				released(t, fmt.Sprintf("opening an unusable payload (%s, %d)", comp, kind), func() {
					rpm, err := rpmutils.ReadRpm(m)
					t.must(err)
					if pr, err := rpm.PayloadReaderExtended(); err == nil {
						for k := 0; k < 1000; k++ {
							if _, err := pr.Next(); err != nil {
								break
							}
						}
					} else {
						t.Event("payload readers refused")
					}
				})
				m2 := given(r, p.Bytes(), false)
				released(t, fmt.Sprintf("expanding an unusable payload (%s, %d)", comp, kind), func() {
					rpm, err := rpmutils.ReadRpm(m2)
					t.must(err)
					_ = rpm.ExpandPayload(filepath.Join(dir, "x"))
				})
				if m.closed+m2.closed > 0 {
					t.Errorf("the reader given was closed")
				}
			}},
			{Name: "extraction", Variants: both, N: n(900, 30000), Run: func(t *T, i int) {
				r := t.R
				comp := compressors[i%len(compressors)]
				p := genPkg(r, PkgOpt{MaxFiles: 7, Compressor: comp})
				kind := "intact"
				if r.IntN(2) == 0 {
					kind = spoilArchive(r, p, comp)
				}
				dest, dkind := destFor(t, r, p)
				t.Sig(p.Bytes(), dkind)
				t.Note("files %v", fileSummary(p.Files))
				limit := -1
				if r.IntN(4) == 0 {
					limit = r.IntN(3000)
				}
				file := r.IntN(2) == 0
				m := given(r, p.Bytes(), r.IntN(2) == 0 && kind != "intact")
				in := filepath.Join(t.Dir(), "in.rpm")
				t.must(os.WriteFile(in, p.Bytes(), 0o644))
				f, err := os.Open(in)
				t.must(err)
				defer f.Close()
				what := fmt.Sprintf("expanding a %s payload (%s, %s, file limit %d)", comp, kind, dkind, limit)
				var opErr error
				released(t, what, func() {
					op := func() {
						var rd io.Reader = m
						if file {
							rd = f
						}
						rpm, err := rpmutils.ReadRpm(rd)
						if err != nil {
							opErr = err
							return
						}
						opErr = rpm.ExpandPayload(dest)
					}
					if limit >= 0 {
						withFileLimit(limit, op)
					} else {
						op()
					}
				})
				t.Seen("extraction outcome", fmt.Sprintf("%s, %s, limited %v: success %v", kind, dkind, limit >= 0, opErr == nil))
				if m.closed > 0 {
					t.Errorf("%s: the reader given was closed", what)
				}
				if _, err := f.Stat(); err != nil {
					t.Errorf("%s: the file given was closed: %v", what, err)
				}
				// the same for a bare archive
				if comp == "uncompressed" || comp == "" {
					dest2, dkind2 := destFor(t, r, p)
					m := given(r, p.Payload, false)
					released(t, "cpio.Extract, "+kind+", "+dkind2, func() { _ = cpio.Extract(m, dest2) })
					if m.closed > 0 {
						t.Errorf("cpio.Extract closed the reader given")
					}
				}
			}},
			{Name: "signing", N: n(500, 20000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(4000), Plain: r.IntN(2) == 0})
				if i%14 == 13 {
					slack(r, p, true)
				}
				data := p.Bytes()
				bad := r.IntN(4)
				if i%14 == 13 {
					bad = 2
				}
				switch bad {
				case 0:
					data = data[:r.IntN(len(data))]
				case 1:
					data[r.IntN(len(data))] ^= 1
				}
				t.Sig(data)
				dir := t.Dir()
				in := filepath.Join(dir, "in.rpm")
				t.must(os.WriteFile(in, data, 0o644))
				out := filepath.Join(dir, "out.rpm")
				var keep *os.File
				kind := []string{"new", "existing", "in place", "in place, hard link", "symlink to input", "symlink elsewhere", "pipe", "missing directory", "directory", "unwritable directory", "not renamable", "stdout", "file limit", "in place, file limit"}[i%14]
				limit := -1
				switch kind {
				case "existing":
					t.must(os.WriteFile(out, []byte("old"), 0o644))
				case "in place":
					out = in
				case "in place, hard link":
					t.must(os.Link(in, filepath.Join(dir, "other")))
					out = in
				case "symlink to input":
					t.must(os.Symlink(in, out))
				case "symlink elsewhere":
					t.must(os.WriteFile(filepath.Join(dir, "other"), []byte("old"), 0o644))
					t.must(os.Symlink("other", out))
				case "pipe":
					t.must(syscall.Mkfifo(out, 0o644))
					var err error
					keep, err = os.OpenFile(out, os.O_RDWR, 0)
					t.must(err)
					defer keep.Close()
				case "missing directory":
					out = filepath.Join(dir, "no", "out.rpm")
				case "directory":
					t.must(os.Mkdir(out, 0o755))
				case "unwritable directory":
					d := t.Dir()
					t.must(os.Chmod(d, 0o555))
					out = filepath.Join(d, "out.rpm")
				case "not renamable":
					out = t.stickyFile(i % 8)
				case "stdout":
					out = "-"
				case "file limit":
					limit = r.IntN(len(data) + 2)
				case "in place, file limit":
					out = in
					limit = r.IntN(96 + len(p.SigBytes) + 2)
				}
				for _, op := range []string{"SignRpmFile", "RewriteWithSignatures"} {
					f, err := os.Open(in)
					t.must(err)
					what := fmt.Sprintf("%s to %s (input damage %d)", op, kind, bad)
					var opErr error
					var rd, wr *os.File
					old := os.Stdout
					if kind == "stdout" {
						rd, wr, err = os.Pipe()
						t.must(err)
						os.Stdout = wr
					}
					released(t, what, func() {
						run := func() {
							if op == "SignRpmFile" {
								_, opErr = rpmutils.SignRpmFile(f, out, key("ed25519").Key, &rpmutils.SignatureOptions{Hash: crypto.SHA256, CreationTime: time.Unix(1600000000, 0)})
							} else {
								_, opErr = rpmutils.RewriteWithSignatures(f, out, []byte("abc"), []byte("d"))
							}
						}
						if limit >= 0 {
							withFileLimit(limit, run)
						} else {
							run()
						}
					})
					if rd != nil {
						os.Stdout = old
						if _, err := wr.Stat(); err != nil {
							t.Errorf("%s: standard output was closed", what)
						}
						rd.Close()
						wr.Close()
					}
					if _, err := f.Stat(); err != nil {
						t.Errorf("%s: the file given was closed: %v", what, err)
					}
					f.Close()
					t.Seen("signing outcome", fmt.Sprintf("%s %s damage %d: success %v", op, kind, bad, opErr == nil))
					if kind == "pipe" {
						buf := make([]byte, 1<<16)
						fd := int(keep.Fd())
						_ = syscall.SetNonblock(fd, true)
						for {
							if n, err := syscall.Read(fd, buf); n <= 0 || err != nil {
								break
							}
						}
					}
				}
			}},
			{Name: "native", N: n(96, 1200), Run: func(t *T, i int) {
				if !haveCgo {
					t.Trivial()
					return
				}
				// one zstd scenario many times
				r := t.R
				p := genPkg(r, PkgOpt{MaxFiles: 6, Compressor: "zstd"})
				kind := "intact"
				if i%4 > 0 {
					kind = spoilArchive(r, p, "zstd")
				}
				if i%8 == 7 { // refused file list
					p.Gen = append(dropTags(p.Gen, gFileModes, gBasenames, gDirnames, gDirIndexes, gOldFilenames), strArr(gBasenames, "a", "b"), strArr(gDirnames, "/"), i32(gDirIndexes, 0))
					kind = "file list refused"
					p.Finish(r)
				}
				data := p.Bytes()
				t.Sig(data)
				expand := i/4%2 == 1
				dest, dkind := destFor(t, r, p)
				plan, size := randPlan(r), 1+r.IntN(5000)
				seed := r.Uint64()
				how := ""
				once := func() {
					q := rand.New(rand.NewPCG(seed, 0))
					rpm, err := rpmutils.ReadRpm(given(q, data, false))
					if err != nil {
						how = "header refused"
						return
					}
					if expand {
						err := rpm.ExpandPayload(dest)
						how = fmt.Sprintf("expanded (%s), success %v", dkind, err == nil)
						return
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						how = "payload refused"
						return
					}
					var done bool
					done, how = iterateAll(q, pr, plan, size)
					for k := 0; !done && k < 10000; k++ {
						if _, err := pr.Next(); err != nil && !strings.Contains(err.Error(), "invalid file") {
							break
						}
					}
				}
				pct := debug.SetGCPercent(-1)
				defer debug.SetGCPercent(pct)
				const k = 12
				for j := 0; j < 4; j++ {
					once()
				}
				before := nativeInUse()
				for j := 0; j < k; j++ {
					once()
				}
				grown := nativeInUse() - before
				if grown > k*16<<10 {
					t.Errorf("zstd payload (%s), %s: native memory grew by %d bytes over %d runs", kind, how, grown, k)
				}
				t.Seen("native scenario", kind+", "+how)
				t.Event("native scenarios repeated")
			}},
		},
	})
}

func fileSummary(files []*File) []string {
	var out []string
	for _, f := range files {
		out = append(out, fmt.Sprintf("%s %o %d", f.Path, f.Mode, len(f.Content)))
	}
	return out
}

var _ = bytes.NewReader
