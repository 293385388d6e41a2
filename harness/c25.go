package main

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"fmt"
	"hash"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C25: concurrent use is race-free and gives sequential results.

// job is an operation on a stream, tree or values of its own. It must not
// share anything with other jobs that is not documented as shareable.
type job struct {
	name string
	run  func(dir string, jit *jitter) outcome
}

// jitter disturbs the schedule at the points where the library calls back. It
// belongs to one goroutine.
type jitter struct{ r *rand.Rand }

func (j *jitter) pause() {
	if j == nil {
		return
	}
	switch j.r.IntN(8) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(j.r.IntN(60)) * time.Microsecond)
	}
}

type jitterReader struct {
	r io.Reader
	j *jitter
}

func (j *jitterReader) Read(b []byte) (int, error) {
	j.j.pause()
	if j.j != nil && len(b) > 700 && j.j.r.IntN(3) == 0 {
		b = b[:700]
	}
	return j.r.Read(b)
}

func src(data []byte, jit *jitter) io.Reader { return &jitterReader{bytes.NewReader(data), jit} }

// randJobs makes operations over packages of all kinds.
func randJobs(t *T, r *rand.Rand, k int) []job {
	var out []job
	// option values that several signings share, with and without unset fields
	shared := []*rpmutils.SignatureOptions{{}, {Hash: crypto.SHA512}, {CreationTime: time.Unix(1500000000, 0)}, {Hash: crypto.SHA384, CreationTime: time.Unix(1500000000, 0)}, nil}
	shared = []*rpmutils.SignatureOptions{shared[r.IntN(5)], shared[r.IntN(5)]}
	for len(out) < k {
		comp := []string{"", "gzip", "bzip2", "xz", "lzma", "zstd"}[r.IntN(6)]
		p := genPkg(r, PkgOpt{MaxFiles: 8, Compressor: comp, Stripped: r.IntN(5) == 0})
		var tags []int
		for _, h := range p.Gen {
			tags = append(tags, h.Tag)
		}
		data := p.Bytes()
		names := keyNames[:5]
		signed := r.IntN(2) == 0
		if signed {
			sg := fixedSigner(r, names...)
			p.Sig = append(dropTags(p.Sig, sReserved, sRSA, sPGP, sDSA, sGPG), bin(sRSA, makeSig(sg.key, sg.hash, sg.from, p.GenBytes)), bin(sPGP, makeSig(sg.key, sg.hash, sg.from, p.GenBytes, p.Payload)))
			p.FinishSig(r)
			data = p.Bytes()
		}
		buf := 1 + r.IntN(5000)
		sd := r.Uint64()
		for c := 1 + r.IntN(2); c > 0; c-- {
			var jb job
			switch kind := r.IntN(12); kind {
			case 0:
				jb = job{"read header", func(dir string, jit *jitter) outcome { return opReadHeader(src(data, jit), tags) }}
			case 1:
				el := ring(names...)
				if r.IntN(3) == 0 {
					el = nil
				}
				jb = job{"verify", func(dir string, jit *jitter) outcome { return opVerify(src(data, jit), el, tags) }}
			case 2:
				name := []string{"rsaA", "ed25519", "rsaB"}[r.IntN(3)]
				jb = job{"sign stream", func(dir string, jit *jitter) outcome { return opSign(src(data, jit), name) }}
			case 3:
				name := []string{"rsaA", "ed25519"}[r.IntN(2)]
				inPlace := r.IntN(2) == 0
				jb = job{"sign file", func(dir string, jit *jitter) outcome {
					in, to := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
					check(os.WriteFile(in, data, 0o644))
					if inPlace {
						to = in
					}
					f, err := os.Open(in)
					check(err)
					defer f.Close()
					jit.pause()
					if _, err := rpmutils.SignRpmFile(f, to, key(name).Key, &rpmutils.SignatureOptions{Hash: crypto.SHA256, CreationTime: time.Unix(1600000000, 0)}); err != nil {
						return failed(err)
					}
					b, err := os.ReadFile(to)
					if err != nil {
						return failed(err)
					}
					return outcome{true, sum(b) + strings.Join(stray(dir, "in.rpm", "out.rpm"), ",")}
				}}
			case 4:
				jb = job{"iterate", func(dir string, jit *jitter) outcome { return opPayloadReader(src(data, jit), buf, readAllPlan) }}
			case 5:
				jb = job{"iterate extended", func(dir string, jit *jitter) outcome { return opExtended(src(data, jit), buf, readAllPlan) }}
			case 6:
				jb = job{"extract", func(dir string, jit *jitter) outcome { return opExpand(src(data, jit), filepath.Join(dir, "x")) }}
			case 7:
				jb = job{"extract archive", func(dir string, jit *jitter) outcome { return opExtract(src(p.Archive, jit), filepath.Join(dir, "x")) }}
			case 8:
				jb = job{"iterate archive", func(dir string, jit *jitter) outcome { return opCpio(src(p.Archive, jit), nil, buf, readAllPlan) }}
			case 9:
				jb = job{"compare and sort", func(dir string, jit *jitter) outcome {
					r := rand.New(rand.NewPCG(sd, 1))
					var b strings.Builder
					l := relatedVersions(r, 30, false)
					var ns rpmutils.NEVRASlice
					n := randNEVRA(r)
					for _, v := range l {
						n = nearNEVRA(r, n)
						n.Version = v
						ns = append(ns, n)
						fmt.Fprint(&b, rpmutils.Vercmp(l[0], v), rpmutils.NEVRAcmp(ns[0], n))
					}
					sort.Sort(rpmutils.VersionSlice(l))
					ns.Sort()
					fmt.Fprintf(&b, "%q %q", l, ns)
					return outcome{true, b.String()}
				}}
			case 11:
				name, opts := []string{"rsaA", "ed25519", "p256"}[r.IntN(3)], shared[r.IntN(2)]
				jb = job{"sign with shared options", func(dir string, jit *jitter) outcome { return opSignVerify(src(data, jit), data, name, opts) }}
			case 10:
				jb = job{"raw records", func(dir string, jit *jitter) outcome {
					st := cpio.NewCpioStream(src(p.Archive, jit))
					var b strings.Builder
					for {
						e, err := st.ReadNextEntry()
						if err != nil {
							return failed(err)
						}
						fmt.Fprintf(&b, "%s;", cpioHdrText(e.Header))
						if e.Header.Filename() == cpio.TRAILER {
							return outcome{true, b.String()}
						}
					}
				}}
			}
			out = append(out, jb)
		}
	}
	return out
}

// together runs every job in a goroutine of its own, starting at once. The
// monitors add no synchronization between the start and the end.
func together(t *T, jobs []job, round int) []outcome {
	out := make([]outcome, len(jobs))
	var order []int32
	if t.Variant != "race" {
		order = make([]int32, len(jobs))
	}
	var seq atomic.Int32
	start := make(chan bool)
	var wg sync.WaitGroup
	for i, j := range jobs {
		dir := t.Dir()
		jit := &jitter{rand.New(rand.NewPCG(uint64(round), uint64(i)+t.R.Uint64()))}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if ie, ok := p.(internalError); ok {
						out[i] = outcome{false, "internal " + ie.msg}
						return
					}
					out[i] = outcome{false, fmt.Sprintf("panic: %v\n%s", p, clip(stacks(), 2000))}
				}
			}()
			<-start
			jit.pause()
			out[i] = j.run(dir, jit)
			if order != nil {
				order[i] = seq.Add(1)
			}
		}()
	}
	close(start)
	wg.Wait()
	if order != nil {
		t.Seen("orders of completion", fmt.Sprint(order))
	}
	t.Event("operations run concurrently", len(jobs))
	return out
}

func alone(t *T, jobs []job) []outcome {
	var out []outcome
	for _, j := range jobs {
		out = append(out, j.run(t.Dir(), nil))
	}
	return out
}

// raceReports returns what the race detector wrote since the last call.
var raceSeen int64

func raceReports() string {
	m, _ := filepath.Glob(filepath.Join(os.Getenv("RTMON_DIR"), fmt.Sprintf("race.%d", os.Getpid())))
	if len(m) == 0 {
		return ""
	}
	b, err := os.ReadFile(m[0])
	if err != nil || int64(len(b)) <= raceSeen {
		return ""
	}
	s := string(b[raceSeen:])
	raceSeen = int64(len(b))
	return s
}

func noRaces(t *T) {
	if s := raceReports(); s != "" {
		t.Errorf("data race:\n%s", clip(s, 3500))
	}
}

func judge(t *T, jobs []job, want, got []outcome) {
	for i := range jobs {
		if strings.HasPrefix(want[i].text, "internal ") || strings.HasPrefix(got[i].text, "internal ") {
			t.Internal("%s: %s %s", jobs[i].name, want[i].text, got[i].text)
		}
		if want[i].ok != got[i].ok || want[i].ok && want[i].text != got[i].text || strings.HasPrefix(got[i].text, "panic") {
			a, b := firstDiff(want[i].text, got[i].text)
			t.Errorf("%s: alone %v %q, concurrently %v %q", jobs[i].name, want[i].ok, a, got[i].ok, b)
		}
		t.Event("results compared: " + jobs[i].name)
		if want[i].ok {
			t.Event("successful operations compared")
		}
	}
}

// firstDiff clips two texts around their first difference.
func firstDiff(a, b string) (string, string) {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	k = max(0, k-60)
	return clip(a[k:], 300), clip(b[k:], 300)
}

// walker advances through an archive one call at a time.
type walker struct {
	er   entryReader
	buf  []byte
	plan func(int) int
	i    int
	left int
	in   bool
	done bool
	sum  hash.Hash
	text strings.Builder
}

func (w *walker) step() {
	switch {
	case w.done:
	case !w.in:
		size, err := w.er.next()
		if err != nil {
			fmt.Fprintf(&w.text, "%v", err == io.EOF)
			w.done = true
			return
		}
		fmt.Fprintf(&w.text, "[%d ", size)
		w.left = w.plan(w.i)
		w.i++
		w.in = true
		w.sum = sha256.New()
	default:
		d := w.buf
		if w.left >= 0 {
			d = d[:min(len(d), w.left)]
		}
		k, err := w.er.Read(d)
		w.sum.Write(d[:k])
		if w.left >= 0 {
			w.left -= k
		}
		if err == io.EOF || err == nil && w.left == 0 {
			fmt.Fprintf(&w.text, "%x]", w.sum.Sum(nil))
			w.in = false
		} else if err != nil {
			fmt.Fprintf(&w.text, "%v", err)
			w.done = true
		}
	}
}

// opener opens the archive of a package in one of the possible ways.
func opener(r *rand.Rand, p *Pkg) (string, func() *walker) {
	data := p.Bytes()
	size := []int{1 + r.IntN(50), 1 + r.IntN(5000), 32768}[r.IntN(3)]
	plan := randPlan(r)
	kind := []string{"payload files", "payload archive", "archive"}[r.IntN(3)]
	if p.stripped() {
		kind = "payload files"
	}
	return kind, func() *walker {
		w := &walker{buf: make([]byte, size), plan: plan}
		if kind == "archive" {
			w.er = cpioEntries{cpio.NewReader(bytes.NewReader(p.Archive))}
			return w
		}
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
		if err == nil && kind == "payload archive" {
			var cr *cpio.Reader
			cr, err = rpm.PayloadReader()
			w.er = cpioEntries{cr}
		} else if err == nil {
			var pr rpmutils.PayloadReader
			pr, err = rpm.PayloadReaderExtended()
			w.er = payloadEntries{pr}
		}
		if err != nil {
			w.done = true
			fmt.Fprint(&w.text, err)
		}
		return w
	}
}

func init() {
	two := []string{"race", "cgo"}
	register(&Check{
		ID:          "C25",
		Rule:        "each case runs a set of operations in goroutines that start at once, with readers that pause at random, under the race detector and in a plain build, and compares every result with that of the operation run alone; or lets several open archives advance in turns; or queries one shared header from many goroutines; distinct by packages and operations",
		Require:     map[string]int64{"operations run concurrently": 3000, "successful operations compared": 2000, "answers of shared headers compared": 100000, "results compared: sign with shared options": 100, "archives read completely in turns": 400},
		Assumptions: []string{"the race detector sees the races of the executions that occur; keys, keyrings and options are shared between goroutines as values that are only read"},
		Groups: []Group{
			{Name: "independent packages", Variants: two, N: n(130, 6000), Run: func(t *T, i int) {
				r := t.R
				jobs := randJobs(t, r, 8)
				if i%4 == 3 { // the same operation many times
					jobs = jobs[:2]
					for len(jobs) < 10 {
						jobs = append(jobs, jobs[len(jobs)%2])
					}
				}
				for _, j := range jobs {
					t.Sig(j.name)
				}
				t.Sig(i)
				var want []outcome
				if i%3 == 0 {
					want = alone(t, jobs)
				}
				var rounds [][]outcome
				for round := 0; round < 2; round++ {
					rounds = append(rounds, together(t, jobs, round))
				}
				if want == nil {
					want = alone(t, jobs)
				}
				for _, got := range rounds {
					judge(t, jobs, want, got)
				}
				noRaces(t)
				t.Sample(map[string]any{"jobs": len(jobs), "first": jobs[0].name, "second": jobs[1].name})
			}},
			{Name: "interleaved", Variants: []string{"cgo", "nocgo"}, N: n(120, 5000), Run: func(t *T, i int) {
				// several archives are open and advance in turns
				r := t.R
				k := 2 + r.IntN(5)
				comp := []string{"gzip", "bzip2", "xz", "lzma", "zstd"}[i%5]
				var opens []func() *walker
				var what []string
				for len(opens) < k {
					c := comp
					if r.IntN(3) == 0 {
						c = compressors[r.IntN(6)]
					}
					p := genPkg(r, PkgOpt{MaxFiles: 8, Compressor: c, Stripped: r.IntN(4) == 0})
					if r.IntN(2) == 0 {
						p = bigPkg(r, c, r.IntN(4) == 0, 100000+r.IntN(400000))
					}
					t.Sig(p.Bytes())
					for n := 1 + r.IntN(2); n > 0; n-- {
						kind, open := opener(r, p)
						opens = append(opens, open)
						what = append(what, kind+" "+c)
					}
				}
				var ws []*walker
				for _, open := range opens {
					ws = append(ws, open())
				}
				quit := r.IntN(4 * len(ws)) // one that is given up
				limit := r.IntN(20)
				runs := []int{1, 1, 4, 50}[r.IntN(4)]
				for {
					var todo []int
					for j, w := range ws {
						if !w.done && !(j == quit && limit < 0) {
							todo = append(todo, j)
						}
					}
					if len(todo) == 0 {
						break
					}
					j := todo[r.IntN(len(todo))]
					for n := 1 + r.IntN(runs); n > 0; n-- {
						ws[j].step()
						if j == quit {
							limit--
						}
						t.Event("steps taken in turns")
					}
				}
				for j, open := range opens {
					w := open()
					for !w.done {
						w.step()
					}
					want, got := w.text.String(), ws[j].text.String()
					if j == quit && strings.HasPrefix(want, got) {
						continue
					}
					if want != got {
						a, b := firstDiff(want, got)
						t.Errorf("%s (one of %d): alone %q, in turns with others %q", what[j], k, a, b)
					}
					if strings.HasSuffix(want, "true") {
						t.Event("archives read completely in turns")
					}
				}
			}},
			{Name: "one kind", Variants: []string{"race", "cgo", "nocgo"}, N: n(66, 2400), Run: func(t *T, i int) {
				// many operations of the same kind on different packages
				r := t.R
				all := randJobs(t, r, 60)
				by := map[string][]job{}
				var names []string
				for _, j := range all {
					if by[j.name] == nil {
						names = append(names, j.name)
					}
					by[j.name] = append(by[j.name], j)
				}
				sort.Strings(names)
				jobs := by[names[i%len(names)]]
				for k := 0; len(jobs) < 6; k++ {
					jobs = append(jobs, jobs[k])
				}
				t.Sig(jobs[0].name, i)
				got := together(t, jobs, 0)
				judge(t, jobs, alone(t, jobs), got)
				noRaces(t)
			}},
			{Name: "shared header", Variants: two, N: n(110, 5000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{MaxFiles: 1 + r.IntN(30), Digests: &okDigests})
				for k := r.IntN(12); k > 0; k-- {
					tag := randTagNumber(r, false)
					if findTag(p.Gen, tag) == nil {
						p.Gen = append(p.Gen, randHTag(r, tag))
					}
				}
				p.Finish(r)
				data := p.Bytes()
				qs := append(usefulQueries(p), queriesFor(r, p, 60)...)
				get := func() *rpmutils.RpmHeader {
					switch i % 3 {
					case 0:
						h, err := rpmutils.ReadHeader(bytes.NewReader(data))
						t.must(err)
						return h
					case 1:
						h, err := rpmutils.SignRpmStream(bytes.NewReader(data), key("ed25519").Key, &rpmutils.SignatureOptions{CreationTime: time.Unix(1600000000, 0)})
						t.must(err)
						return h
					}
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
					t.must(err)
					return rpm.Header
				}
				t.Sig(data, i%3)
				hdr := get()
				const workers = 6
				got := make([][]string, workers)
				perms := make([][]int, workers)
				for w := range perms {
					perms[w] = r.Perm(len(qs))
					if w%2 == 1 {
						perms[w] = perms[0]
					}
				}
				files, ferr := get().GetFiles()
				fgot := make([]string, workers)
				start := make(chan bool)
				var wg sync.WaitGroup
				for w := 0; w < workers; w++ {
					got[w] = make([]string, len(qs))
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if p := recover(); p != nil {
								fgot[w] = fmt.Sprintf("panic: %v", p)
							}
						}()
						<-start
						for _, k := range perms[w] {
							got[w][k] = qs[k].text(hdr)
						}
						fgot[w] = render(files, ferr)
					}()
				}
				close(start)
				wg.Wait()
				fresh := get()
				wantFiles := render(files, ferr)
				for w := range got {
					for k, q := range qs {
						if want := q.text(fresh); got[w][k] != want {
							a, b := firstDiff(want, got[w][k])
							t.Errorf("%v: alone %q, concurrently %q", q, a, b)
						}
					}
					if fgot[w] != wantFiles {
						t.Errorf("shared file list: alone %q, concurrently %q", clip(wantFiles, 300), clip(fgot[w], 300))
					}
					t.Event("answers of shared headers compared", len(qs))
				}
				noRaces(t)
			}},
		},
	})
}
