package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"path/filepath"
	"runtime"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C02: memory is bounded by the bytes actually supplied.

// allocated reports the bytes allocated while f runs.
func allocated(f func()) int64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int64(b.TotalAlloc - a.TotalAlloc)
}

const (
	memConst    = 2 << 20  // fixed part
	memMultiple = 100      // per byte delivered
	memPerEntry = 80 << 10 // per archive entry that is extracted (copy buffers)
	memSkip     = 4 << 20  // whole budget when content is only skipped or copied
)

func checkAlloc(t *T, what string, m *meter, entries int, f func()) {
	got := allocated(f)
	limit := memConst + memMultiple*m.n + memPerEntry*int64(entries)
	if got > limit {
		t.Errorf("%s allocated %d bytes although only %d bytes were supplied (limit %d)", what, got, m.n, limit)
	}
	t.Event("allocation measurements")
	if got > 1<<16 {
		t.Event("measurements above 64 KiB")
	}
}

// zeroes is an endless reader without content of its own.
type zeroes struct{}

func (zeroes) Read(p []byte) (int, error) {
	clear(p)
	return len(p), nil
}

// parts concatenates byte slices and runs of zeroes.
type runOf struct {
	b    []byte
	zero int64
}

func streamOf(parts ...runOf) io.Reader {
	var rs []io.Reader
	for _, p := range parts {
		if p.zero > 0 {
			rs = append(rs, io.LimitReader(zeroes{}, p.zero))
		} else {
			rs = append(rs, bytes.NewReader(p.b))
		}
	}
	return io.MultiReader(rs...)
}

// onlyRead hides all methods but Read.
type onlyRead struct{ r io.Reader }

func (o onlyRead) Read(p []byte) (int, error) { return o.r.Read(p) }

var declared = []uint32{1 << 20, 1 << 24, 100 << 20, 1 << 28, 1<<28 - 1, 1 << 30, 0x7ffffff0, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff}

func init() {
	register(&Check{
		ID:   "C02",
		Rule: "each case is a stream declaring sizes it does not deliver (header entry counts, data sizes, value counts, name lengths, file sizes, symlink lengths, supplied sizes), or one delivering large content that is skipped, read through a small buffer or extracted; the allocation of each call is measured; distinct by input",
		Assumptions: []string{
			"bounds: 2 MiB + 100 bytes per byte delivered (+ 80 KiB per entry when extracting); skipping, reading or extracting large contents: 4 MiB in total",
			"the dictionary window a third-party decompressor reserves is outside the property",
		},
		Require: map[string]int64{"allocation measurements": 3000, "bytes skipped or copied": 100 << 20},
		Groups: []Group{
			{Name: "declared-header-sizes", N: n(4500, 50000), Run: func(t *T, i int) {
				r := t.R
				d := declared[i%len(declared)]
				lead := buildLead("x", false)
				sig := buildHeader(r, []HTag{i32(sSize, 1)}, HOpt{Region: 62}, true)
				fill := randContent(r, []int{0, 5, 100, 5000, 200000}[r.IntN(5)])
				var data []byte
				kind := r.IntN(5)
				mk := func(nind, size uint32) []byte {
					b := rawHeader(nil, nil, nind, size, false)
					return append(b, fill...)
				}
				switch kind {
				case 0: // signature area
					data = append(append([]byte{}, lead...), mk(uint32(r.IntN(3)), d)...)
				case 1:
					data = append(append([]byte{}, lead...), mk(d, uint32(r.IntN(50)))...)
				case 2: // general area
					data = append(append(append([]byte{}, lead...), sig...), mk(uint32(r.IntN(3)), d)...)
				case 3:
					data = append(append(append([]byte{}, lead...), sig...), mk(d, d)...)
				case 4: // value counts
					typ := uint32(r.IntN(10))
					h := rawHeader([]rawEnt{{1000, typ, 0, d}, {1001, typ, uint32(len(fill)), d}}, fill, 2, uint32(len(fill)), false)
					data = append(append(append([]byte{}, lead...), sig...), h...)
				}
				t.Sig(data)
				m := &meter{r: bytes.NewReader(data)}
				ops := r.IntN(3)
				checkAlloc(t, fmt.Sprintf("reading a header (kind %d, declared %#x)", kind, d), m, 0, func() {
					var hdr *rpmutils.RpmHeader
					switch ops {
					case 0:
						hdr, _ = rpmutils.ReadHeader(m)
					case 1:
						hdr, _, _ = rpmutils.Verify(m, nil)
					case 2:
						hdr, _ = rpmutils.SignRpmStream(m, key("ed25519").Key, nil)
					}
					if hdr != nil {
						_, _ = hdr.Get(1000)
						_, _ = hdr.GetStrings(1001)
						_, _ = hdr.GetUint64s(1001)
					}
				})
				if i < 22 {
					t.Sample(map[string]any{"kind": kind, "declared": d, "delivered": m.n})
				}
			}},
			{Name: "declared-cpio-sizes", N: n(7500, 50000), Run: func(t *T, i int) {
				r := t.R
				d := declared[i%len(declared)]
				fill := randContent(r, []int{0, 5, 100, 5000, 100000}[r.IntN(5)])
				name := "a/b"
				mode := []int{mReg | 0o644, mLnk | 0o777, mDir | 0o755, mFifo | 0o644, mChr, 0}[r.IntN(6)]
				e := newcEnt(name, mode, nil)
				kind := r.IntN(4)
				var w cpioWriter
				for k := r.IntN(3); k > 0; k-- { // some proper entries first
					w.add(newcEnt(fmt.Sprintf("p%d", k), mReg|0o644, randContent(r, r.IntN(100))))
				}
				entries := 4
				switch kind {
				case 0:
					e.Fields[cNameSize] = d
					w.head(e)
				case 1:
					e.Fields[cSize] = d
					w.head(e)
				case 2:
					e.Fields[cSize], e.Fields[cNameSize] = d, d
					w.head(e)
				case 3:
					w.head(&cpioEnt{Stripped: true, Index: r.IntN(3)})
				}
				w.b.Write(fill)
				data := w.b.Bytes()
				t.Sig(data, i)
				m := &meter{r: bytes.NewReader(data)}
				sizes := []int64{int64(d), int64(d) << 8, 1 << 62}
				op := r.IntN(5)
				dir := t.Dir()
				checkAlloc(t, fmt.Sprintf("operation %d on a cpio archive (kind %d, declared %#x, mode %o)", op, kind, d, mode), m, entries, func() {
					switch op {
					case 0, 1: // skip
						cr := cpio.NewReaderWithSizes(m, sizes)
						for {
							if _, err := cr.Next(); err != nil {
								break
							}
						}
					case 2: // read
						cr := cpio.NewReaderWithSizes(m, sizes)
						buf := make([]byte, 1000)
						for {
							if _, err := cr.Next(); err != nil {
								break
							}
							for {
								if _, err := cr.Read(buf); err != nil {
									break
								}
							}
						}
					case 3:
						cs := cpio.NewCpioStream(m)
						cs.SetFileSizes(sizes)
						for {
							if _, err := cs.ReadNextEntry(); err != nil {
								break
							}
						}
					case 4:
						_ = cpio.Extract(m, dir)
					}
				})
			}},
			{Name: "declared-payload-sizes", N: n(900, 10000), Run: func(t *T, i int) {
				// file list of a package declaring huge files and symlinks
				r := t.R
				p := &Pkg{Name: "d", Digests: DigestCfg{SHA256: "ok"}}
				p.Gen = append(basicTags(r, "d"), strTag(gPayloadCompressor, "uncompressed"))
				p.Files = genFiles(r, FilesOpt{Max: 6, Links: true})
				tags := fileTags(r, p.Files, FileTagOpt{Long: true})
				if h := findTag(tags, gLongFileSizes); h != nil {
					v := make([]uint64, h.Count)
					for j := range v {
						v[j] = []uint64{1 << 30, 1 << 40, 1<<63 - 1, 0}[r.IntN(4)]
					}
					*h = i64(gLongFileSizes, v...)
				}
				p.Gen = append(p.Gen, tags...)
				p.Archive, _ = archiveOf(r, p.Files, r.IntN(2) == 0, ".", nil)
				p.Payload = p.Archive
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				m := &meter{r: bytes.NewReader(data)}
				read := r.IntN(2) == 0
				checkAlloc(t, "iterating a payload with declared sizes", m, len(p.Files), func() {
					rpm, err := rpmutils.ReadRpm(m)
					if err != nil {
						t.Fatalf("ReadRpm: %v", err)
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						return
					}
					buf := make([]byte, 1000)
					for {
						if _, err := pr.Next(); err != nil {
							break
						}
						for read {
							if _, err := pr.Read(buf); err != nil {
								break
							}
						}
					}
				})
			}},
			{Name: "large-contents", N: n(12, 60), Run: func(t *T, i int) {
				// large content passes through in constant memory
				r := t.R
				big := int64(64<<20) + int64(r.IntN(1000))
				if t.Tier == "thorough" {
					big *= 20
				}
				if i%6 == 3 { // bounded by disk space
					big = 48<<20 + int64(r.IntN(1000))
				}
				var w cpioWriter
				e := newcEnt("./dir/big", mReg|0o644, nil)
				e.Fields[cSize] = uint32(big)
				stripped := i%6 == 1 || i%6 == 4
				if stripped {
					e = &cpioEnt{Stripped: true, Index: 0}
				}
				w.head(e)
				pad := (4 - (int64(w.b.Len())+big)%4) % 4
				tail, _, _ := buildCpio([]*cpioEnt{newcEnt("./dir/small", mReg|0o644, []byte("tiny"))}, 0)
				m := &meter{r: streamOf(runOf{b: w.b.Bytes()}, runOf{zero: big}, runOf{b: make([]byte, pad)}, runOf{b: tail})}
				var got int64
				var what string
				dir := t.Dir()
				seen := 0
				expect := 2
				switch i % 6 {
				case 0, 1:
					what = "skipping"
					got = allocated(func() {
						cr := cpio.NewReaderWithSizes(m, []int64{big})
						for {
							if _, err := cr.Next(); err != nil {
								break
							}
							seen++
						}
					})
				case 2, 4:
					what = "reading through a small buffer"
					got = allocated(func() {
						cr := cpio.NewReaderWithSizes(m, []int64{big})
						buf := make([]byte, 50000)
						for {
							if _, err := cr.Next(); err != nil {
								break
							}
							seen++
							for {
								if _, err := cr.Read(buf); err != nil {
									break
								}
							}
						}
					})
				case 3:
					what = "extracting"
					got = allocated(func() {
						if err := cpio.Extract(m, dir); err != nil {
							t.Errorf("Extract: %v", err)
						}
					})
					seen = 2
				case 5: // the payload reader of a package
					what = "skipping in a package"
					f1 := &File{Dir: "/dir/", Base: "big", Path: "/dir/big", Mode: mReg | 0o644, Nlink: 1, Ino: 1, HSize: uint64(big)}
					f2 := &File{Dir: "/dir/", Base: "small", Path: "/dir/small", Mode: mReg | 0o644, Nlink: 1, Ino: 2, HSize: 4}
					p := &Pkg{Name: "d", Digests: DigestCfg{SHA256: "ok"}}
					p.Gen = append(basicTags(r, "d"), strTag(gPayloadCompressor, "uncompressed"))
					p.Gen = append(p.Gen, fileTags(r, []*File{f1, f2}, FileTagOpt{Long: true})...)
					p.Finish(r)
					m = &meter{r: streamOf(runOf{b: p.Bytes()}, runOf{b: w.b.Bytes()}, runOf{zero: big}, runOf{b: make([]byte, pad)}, runOf{b: tail})}
					got = allocated(func() {
						rpm, err := rpmutils.ReadRpm(onlyRead{m})
						if err != nil {
							t.Fatalf("ReadRpm: %v", err)
						}
						pr, err := rpm.PayloadReaderExtended()
						if err != nil {
							t.Fatalf("PayloadReaderExtended: %v", err)
						}
						for {
							if _, err := pr.Next(); err != nil {
								break
							}
							seen++
						}
					})
				}
				if seen != expect {
					t.Errorf("%s: %d entries seen", what, seen)
				}
				if got > memSkip {
					t.Errorf("%s %d bytes of content allocated %d bytes", what, big, got)
				}
				t.Event("allocation measurements")
				t.Event("bytes skipped or copied", int(m.n))
				t.Sample(map[string]any{"what": what, "content": big, "allocated": got})
			}},
			{Name: "many-small-things", N: n(40, 400), Run: func(t *T, i int) {
				// real content in many pieces stays within the multiple
				r := t.R
				p := &Pkg{Name: "m", Digests: DigestCfg{SHA256: "ok"}}
				for k := 0; k < 3000; k++ {
					p.Gen = append(p.Gen, randHTag(r, 2000+k))
				}
				for k := 0; k < 500; k++ {
					p.Sig = append(p.Sig, randHTag(r, 2000+k))
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				m := &meter{r: bytes.NewReader(data)}
				checkAlloc(t, "reading a header with many tags", m, 0, func() {
					if _, err := rpmutils.ReadHeader(m); err != nil {
						t.Errorf("ReadHeader: %v", err)
					}
				})
				var w cpioWriter
				for k := 0; k < 2000; k++ {
					w.add(newcEnt(fmt.Sprintf("f%d", k), mReg|0o644, []byte("x")))
				}
				w.add(trailerEnt())
				m = &meter{r: bytes.NewReader(w.b.Bytes())}
				checkAlloc(t, "iterating many entries", m, 0, func() {
					cr := cpio.NewReader(m)
					for {
						if _, err := cr.Next(); err != nil {
							if err != io.EOF {
								t.Errorf("Next: %v", err)
							}
							break
						}
					}
				})
			}},
		},
	})
}

var _ = binary.BigEndian
var _ = errors.New
var _ = filepath.Join
var _ = rand.Int
