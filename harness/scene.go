package main

// Scratch trees in which files are signed.

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// scene is an input file and a destination.
type scene struct {
	t      *T
	base   string
	cwd    string
	kind   string
	in     string // the input, absolute
	inArg  string // how the input is opened
	out    string // how the destination is given
	change []string
	pipe   string
	late   time.Duration // when the reader of a pipe comes
	before map[string]node
	data   []byte
	fresh  bool // the destination does not exist beforehand
}

var destKinds = []string{"new", "existing", "input", "input, spelled differently", "hard link to input", "input that has hard links", "symlink to input",
	"symlink to symlink to input", "symlink to another file", "dangling symlink", "pipe", "pipe, reader comes later", "symlink to pipe", "existing with hard links", "read-only file",
	"relative", "through a symlinked directory", "relative in current directory", "symlink to hard link of input", "file that replaced the input", "name of a temporary kind", "namesake in another directory", "standard output"}

func newScene(t *T, r *rand.Rand, kind string, data []byte) *scene {
	s := &scene{t: t, base: t.Dir(), kind: kind, data: data}
	at := func(p string) string { return filepath.Join(s.base, p) }
	s.cwd = s.base
	for _, d := range []string{"in", "out", "other", "out/sub"} {
		t.must(os.Mkdir(at(d), 0o755))
	}
	put := func(p string, b []byte, mode os.FileMode) { t.must(os.WriteFile(at(p), b, mode)) }
	s.in = at("in/in.rpm")
	s.inArg = s.in
	put("in/in.rpm", data, []os.FileMode{0o644, 0o600, 0o664, 0o755}[r.IntN(4)])
	put("in/neighbour", []byte("n1"), 0o644)
	put("out/neighbour", []byte("n2"), 0o644)
	put("other/file", []byte("n3"), 0o644)
	t.must(os.Link(at("other/file"), at("out/linked")))
	old := randContent(r, r.IntN(3000))
	if r.IntN(3) == 0 {
		old = append(append([]byte{}, data...), "longer than the new content"...)
		old = append(old, make([]byte, 5000)...)
	}
	s.out = at("out/out.rpm")
	s.change = []string{"out/out.rpm"}
	switch kind {
	case "new":
		s.fresh = true
	case "existing":
		put("out/out.rpm", old, 0o644)
	case "read-only file":
		put("out/out.rpm", old, 0o444)
	case "input":
		s.out, s.change = s.in, []string{"in/in.rpm"}
	case "input, spelled differently":
		s.out, s.change = []string{"in/in.rpm", "./in/in.rpm", at("out") + "/../in/in.rpm", at("in") + "//in.rpm"}[r.IntN(4)], []string{"in/in.rpm"}
	case "hard link to input":
		t.must(os.Link(s.in, at("out/out.rpm")))
	case "input that has hard links":
		t.must(os.Link(s.in, at("other/link.rpm")))
		s.out, s.change = s.in, []string{"in/in.rpm"}
	case "symlink to input":
		t.must(os.Symlink([]string{"../in/in.rpm", s.in}[r.IntN(2)], at("out/out.rpm")))
		s.change = append(s.change, "in/in.rpm")
	case "symlink to symlink to input":
		t.must(os.Symlink("../out/step", at("out/out.rpm")))
		t.must(os.Symlink(s.in, at("out/step")))
		s.change = append(s.change, "in/in.rpm", "out/step")
	case "symlink to hard link of input":
		t.must(os.Link(s.in, at("other/link.rpm")))
		t.must(os.Symlink("../other/link.rpm", at("out/out.rpm")))
		s.change = append(s.change, "other/link.rpm")
	case "symlink to another file":
		put("other/target.rpm", old, 0o644)
		t.must(os.Symlink("../other/target.rpm", at("out/out.rpm")))
		s.change = append(s.change, "other/target.rpm")
	case "dangling symlink":
		t.must(os.Symlink("../other/target.rpm", at("out/out.rpm")))
		s.change = append(s.change, "other/target.rpm")
		s.fresh = true
	case "pipe", "pipe, reader comes later", "symlink to pipe":
		s.pipe = at("out/out.rpm")
		t.must(syscall.Mkfifo(s.pipe, 0o644))
		if kind == "pipe, reader comes later" {
			s.late = time.Duration(5+r.IntN(30)) * time.Millisecond
		}
		if kind == "symlink to pipe" {
			t.must(os.Symlink("../out/out.rpm", at("other/alias")))
			s.out = at("other/alias")
		}
		s.change = nil
	case "existing with hard links":
		put("out/out.rpm", old, 0o644)
		t.must(os.Link(at("out/out.rpm"), at("other/second name")))
	case "relative":
		put("out/out.rpm", old, 0o644)
		s.out, s.inArg = "out/out.rpm", "in/in.rpm"
	case "through a symlinked directory":
		t.must(os.Symlink("out", at("alias")))
		s.out = at("alias/out.rpm")
		s.fresh = true
	case "relative in current directory":
		s.cwd, s.out, s.inArg = at("out"), "out.rpm", "../in/in.rpm"
		if r.IntN(2) == 0 {
			put("out/out.rpm", old, 0o644)
		} else {
			s.fresh = true
		}
	case "file that replaced the input":
		// the open input is no longer what its name denotes
		s.out, s.change = s.in, []string{"in/in.rpm"}
	case "name of a temporary kind":
		n := []string{"out*.rpm", "*", "a b\n.rpm", "out.rpm123", "-x", "-", "--", "-"}[r.IntN(8)]
		s.out, s.change = at("out/"+n), []string{"out/" + n}
		s.fresh = true
		if r.IntN(2) == 0 { // relative; "-" alone is standard output
			s.cwd, s.out, s.inArg = at("out"), n, "../in/in.rpm"
			if n == "-" || r.IntN(4) == 0 {
				s.out = "./" + n
			}
		}
	case "namesake in another directory":
		// same name, size, times and permissions
		s.out, s.change = at("out/in.rpm"), []string{"out/in.rpm"}
		b := append([]byte{}, data...)
		if r.IntN(2) == 0 {
			b = randContent(r, len(data))
		}
		info, err := os.Stat(s.in)
		t.must(err)
		put("out/in.rpm", b, 0o600)
		t.must(os.Chmod(s.out, info.Mode()))
		t.must(os.Chtimes(s.out, info.ModTime(), info.ModTime()))
	case "standard output":
		s.out, s.change = "-", nil
		s.cwd = at("out")
	default:
		t.Internal("kind %q", kind)
	}
	// files whose names somebody else's temporary files might have
	for _, c := range s.change {
		dir, name := filepath.Split(filepath.Join(s.base, c))
		for i, n := range []string{name + ".tmp", name + ".temp", name + ".new", name + ".part", name + ".bak", name + ".orig", name + ".signed", name + "~", name + "-tmp", name + "0", name + "1",
			"." + name, "." + name + ".tmp", "." + name + ".swp", "tmp", "temp", "tmp." + name, strings.TrimSuffix(name, ".rpm") + ".tmp"} {
			if n = dir + n; r.IntN(2) == 0 {
				continue
			}
			if _, err := os.Lstat(n); err == nil {
				continue
			}
			if r.IntN(8) == 0 {
				t.must(os.Symlink(at("other/file"), n))
			} else {
				t.must(os.WriteFile(n, []byte{byte(i)}, 0o644))
			}
		}
	}
	return s
}

// open opens the input as the caller would and takes the snapshot.
func (s *scene) open() *os.File {
	var f *os.File
	s.t.inDir(s.cwd, func() {
		var err error
		f, err = os.Open(s.inArg)
		s.t.must(err)
	})
	if s.kind == "file that replaced the input" {
		s.t.must(os.Rename(s.in, filepath.Join(s.base, "in/moved.rpm")))
		s.t.must(os.WriteFile(s.in, []byte("something else"), 0o644))
	}
	var err error
	s.before, err = snapshot(s.base)
	s.t.must(err)
	return f
}

// drain reads what is written to the pipe; call the result after the writer
// is done.
func (s *scene) drain() func() []byte {
	if s.pipe == "" {
		return nil
	}
	got := make(chan []byte, 1)
	ready := make(chan bool, 1)
	go func() {
		time.Sleep(s.late)
		if s.late == 0 {
			ready <- true
		}
		f, err := os.Open(s.pipe) // waits for a writer
		check(err)
		b, err := io.ReadAll(f)
		check(err)
		f.Close()
		got <- b
	}()
	if s.late == 0 {
		<-ready
	}
	return func() []byte {
		for k := 0; k < 4000; k++ {
			select {
			case b := <-got:
				return b
			case <-time.After(5 * time.Millisecond):
				// release a reader nobody ever wrote to
				if f, err := os.OpenFile(s.pipe, os.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
					f.Close()
				}
			}
		}
		s.t.Internal("the pipe's reader does not end")
		return nil
	}
}

// delivered returns what the destination holds now.
func (s *scene) delivered() ([]byte, error) {
	var b []byte
	var err error
	s.t.inDir(s.cwd, func() {
		b, err = os.ReadFile(s.out)
	})
	return b, err
}

// elsewhere reports every change apart from the destination. With all set,
// the destination must not have changed either.
func (s *scene) elsewhere(what string, all bool, litter bool) {
	t := s.t
	after, err := snapshot(s.base)
	t.must(err)
	may := map[string]bool{}
	for _, p := range s.change {
		may[p] = !all
	}
	var names []string
	for p := range s.before {
		names = append(names, p)
	}
	for p := range after {
		if _, ok := s.before[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	for _, p := range names {
		a, okA := s.before[p]
		b, okB := after[p]
		switch {
		case may[p]:
		case !okA:
			if !litter {
				t.Errorf("%s: %q was left behind (%s of %d bytes)", what, p, b.Kind, len(b.Data))
			}
		case !okB:
			t.Errorf("%s: %q is gone", what, p)
		case a.Kind != b.Kind || a.Data != b.Data:
			t.Errorf("%s: %q changed from %s (%d bytes) to %s (%d bytes)", what, p, a.Kind, len(a.Data), b.Kind, len(b.Data))
		case a.Kind != "dir" && a.Kind != "fifo" && !all && (a.Ino != b.Ino || a.Perm != b.Perm):
			t.Errorf("%s: %q was replaced", what, p)
		}
	}
	t.Event("objects around the destination watched", len(names))
}

// checkRewritten judges a package with raw signatures.
func checkRewritten(t *T, what string, orig, out, sigPgp, sigRsa []byte) *refPkg {
	a, err := parsePkg(orig)
	t.must(err)
	b, err := parsePkg(out)
	if err != nil {
		t.Errorf("%s: result of %d bytes is not a package: %v", what, len(out), err)
		return nil
	}
	if !bytes.Equal(a.Lead, b.Lead) || !bytes.Equal(a.GenRaw, b.GenRaw) || !bytes.Equal(a.Payload, b.Payload) {
		t.Errorf("%s: lead, general header or payload changed (%d bytes, now %d)", what, len(orig), len(out))
	}
	if err := wellFormedSig(b.Sig); err != nil {
		t.Errorf("%s: signature header: %v", what, err)
	}
	if err := sigTagsEqual(a.Sig, b.Sig, sRSA, sPGP, sDSA, sGPG); err != nil {
		t.Errorf("%s: signature header: %v", what, err)
	}
	for tag, want := range map[int][]byte{sRSA: sigRsa, sPGP: sigPgp} {
		if e := b.Sig.get(tag); e == nil || e.Type != tBin || !bytes.Equal(e.Data, want) {
			t.Errorf("%s: tag %d does not hold the given signature", what, tag)
		}
	}
	for _, tag := range []int{sDSA, sGPG} {
		if b.Sig.get(tag) != nil {
			t.Errorf("%s: superseded signature %d is still there", what, tag)
		}
	}
	return b
}

// slack makes the signature header large enough for an update in place, or not.
func slack(r *rand.Rand, p *Pkg, room bool) {
	p.Sig = dropTags(p.Sig, sReserved)
	p.SigOpt.Share = false
	if room {
		p.Sig = append(p.Sig, bin(sReserved, make([]byte, 1800+r.IntN(2000))))
	} else if r.IntN(2) == 0 {
		p.Sig = append(p.Sig, bin(sReserved, make([]byte, r.IntN(100))))
	}
	p.FinishSig(r)
}

// otherTempDir makes the directory for temporary files one that does not
// exist, or one in which nothing may remain, until the result is called.
func otherTempDir(t *T, s *scene) func() {
	old, had := os.LookupEnv("TMPDIR")
	dir := filepath.Join(s.base, []string{"none", "in", "other", "in/in.rpm"}[t.R.IntN(4)])
	t.must(os.Setenv("TMPDIR", dir))
	t.Event("unusual directories for temporary files")
	return func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}
}

// fit tries to make lead and signature header just spare bytes larger than a
// header of the wanted tags takes.
func fit(r *rand.Rand, p *Pkg, want []HTag, spare int) bool {
	p.SigOpt.Share = false
	p.Sig = append(dropTags(p.Sig, sReserved), bin(sReserved, nil))
	size := 0
	for k := 0; k < 4; k++ {
		p.FinishSig(r)
		off := tightSize(want) + spare - (96 + len(p.SigBytes))
		if off == 0 {
			return true
		}
		if size += off; size < 0 {
			return false
		}
		*findTag(p.Sig, sReserved) = bin(sReserved, make([]byte, size))
	}
	return false
}

// sub signfile OPERATION IN OUT KEY LIMIT signs a file; the outcome goes to
// standard error. LIMIT is the size at which the process is killed, -1 for none.
func init() {
	subModes["signfile"] = func(args []string) {
		f, err := os.Open(args[1])
		check(err)
		k := key(args[3]).Key // before any limit
		at := time.Unix(1600000000, 0)
		limit, err := strconv.Atoi(args[4])
		check(err)
		if limit >= 0 {
			check(syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{}))
			check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}))
			// the runtime ignores the signal; let it end the process
			var dfl [32]byte
			_, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&dfl)), 0, 8, 0, 0)
			if e != 0 {
				check(e)
			}
		}
		// strace counts calls per thread
		done := make(chan bool)
		go func() {
			runtime.LockOSThread()
			fmt.Fprintln(os.Stderr, "START")
			if args[0] == "rewrite" {
				_, err = rpmutils.RewriteWithSignatures(f, args[2], []byte(args[5]), []byte(args[6]))
			} else {
				_, err = rpmutils.SignRpmFile(f, args[2], k, &rpmutils.SignatureOptions{Hash: crypto.SHA256, CreationTime: at})
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "FAILED", err)
				os.Exit(3)
			}
			fmt.Fprintln(os.Stderr, "DONE")
			close(done)
		}()
		<-done
	}
}

// signProcess runs the signing in a process of its own.
func (s *scene) signProcess(op, keyName string, limit int, wrap []string, extra ...string) (stdout, stderr []byte) {
	return s.signProcessFor(0, op, keyName, limit, wrap, extra...)
}

// signProcessFor kills it some time after it started to sign.
func (s *scene) signProcessFor(d time.Duration, op, keyName string, limit int, wrap []string, extra ...string) (stdout, stderr []byte) {
	args := append(append([]string{}, wrap...), s.t.env.self, "sub", "signfile", op, s.inArg, s.out, keyName, strconv.Itoa(limit))
	args = append(args, extra...)
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = s.cwd
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMAXPROCS=2")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if d > 0 {
		pr, pw, err := os.Pipe()
		s.t.must(err)
		cmd.Stderr = pw
		s.t.must(cmd.Start())
		pw.Close()
		line := make([]byte, 100)
		k, _ := pr.Read(line)
		e.Write(line[:k])
		time.Sleep(d)
		_ = cmd.Process.Kill()
		_, _ = e.ReadFrom(pr)
		pr.Close()
		_ = cmd.Wait()
		return o.Bytes(), e.Bytes()
	}
	_ = cmd.Run()
	return o.Bytes(), e.Bytes()
}
