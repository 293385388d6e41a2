package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"path/filepath"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C10: malformed cpio data or call order never crashes or hangs.

var hostileHex = []string{"ffffffff", "7fffffff", "80000000", "-0000001", "+0000001", "-7ffffff", "00000000", "0x000010", "        ", "0000000g", "\x00\x00\x00\x00\x00\x00\x00\x00",
	"00000001", "fffffffe", "FFFFFFF0", "0000006e", "1_000000", "00000_01", "-1000000", "7ffffff0"}

var hostileSizes = []int64{0, 1, -1, -2, -1 << 63, 1<<63 - 1, 1<<63 - 4, 1 << 62, -4, 3, 4, 100, 1 << 32}

// mangleCpio damages an archive.
func mangleCpio(r *rand.Rand, data []byte) []byte {
	data = append([]byte{}, data...)
	for k := 1 + r.IntN(4); k > 0 && len(data) > 0; k-- {
		switch r.IntN(7) {
		case 0, 1: // a field of a header
			var heads []int
			for at := 0; ; {
				j := bytes.Index(data[at:], []byte("07070"))
				if j < 0 {
					break
				}
				heads = append(heads, at+j)
				at += j + 5
			}
			if len(heads) == 0 {
				continue
			}
			h := heads[r.IntN(len(heads))]
			field := r.IntN(13)
			if r.IntN(2) == 0 {
				field = []int{cMode, cSize, cNameSize, cNlink}[r.IntN(4)]
			}
			at := h + 6 + 8*field
			if at+8 <= len(data) {
				v := hostileHex[r.IntN(len(hostileHex))]
				if field == cMode && r.IntN(2) == 0 {
					v = fmt.Sprintf("%08x", []int{mReg, mDir, mLnk, mFifo, mChr, mBlk, 0o140000, 0, 0o170000}[r.IntN(9)]|r.IntN(0o10000))
				}
				copy(data[at:], v)
			}
		case 2:
			data[r.IntN(len(data))] = byte(r.Uint32())
		case 3: // truncate
			data = data[:r.IntN(len(data)+1)]
		case 4: // drop some bytes
			a := r.IntN(len(data))
			b := min(len(data), a+1+r.IntN(20))
			data = append(data[:a], data[b:]...)
		case 5: // repeat some bytes
			a := r.IntN(len(data))
			b := min(len(data), a+1+r.IntN(200))
			data = append(data[:b:b], data[a:]...)
		case 6: // magic
			if j := bytes.Index(data, []byte("07070")); j >= 0 && j+6 <= len(data) {
				data[j+5] = []byte{'1', 'X', '2', '7', 0}[r.IntN(5)]
			}
		}
	}
	return data
}

// callHistory drives a reader with calls in any order.
type linker interface{ IsLink() bool }

func callHistory(t *T, r *rand.Rand, what string, er entryReader, total int) {
	calls := 5 + r.IntN(60)
	mode := r.IntN(4)
	var hist []string
	nexts := 0
	defer func() {
		if e := recover(); e != nil {
			t.Note("call history (%s): %s", what, strings.Join(hist, " "))
			panic(e)
		}
	}()
	failed := false
	for k := 0; k < calls; k++ {
		op := r.IntN(3)
		if mode == 0 {
			op = k % 2
		}
		switch op {
		case 0:
			hist = append(hist, "Next")
			_, err := er.next()
			if err == nil {
				nexts++
				if nexts > total/14+2 && !failed {
					t.Fatalf("%s: %d entries from %d bytes", what, nexts, total)
				}
			} else {
				failed = true
				hist = append(hist, "(error)")
				t.Event("calls that failed")
			}
		case 1:
			size := []int{0, 1, 10, 1000, 100000}[r.IntN(5)]
			hist = append(hist, fmt.Sprintf("Read(%d)", size))
			var buf []byte
			if size > 0 || r.IntN(2) == 0 {
				buf = make([]byte, size)
			}
			n, err := er.Read(buf)
			if n < 0 || n > size {
				t.Fatalf("%s: Read(%d) returned %d, %v after %s", what, size, n, err, strings.Join(hist, " "))
			}
			if err != nil {
				t.Event("calls that failed")
			}
		case 2:
			if l, ok := er.(linker); ok {
				hist = append(hist, "IsLink")
				_ = l.IsLink()
			}
		}
		t.Event("calls")
	}
	// and then to the end
	buf := make([]byte, 5000)
	for k := 0; ; k++ {
		if k > total/14+2 {
			t.Fatalf("%s: iteration of %d bytes does not end", what, total)
		}
		if _, err := er.next(); err != nil {
			break
		}
		if r.IntN(2) == 0 {
			idle := 0
			for idle < 200 {
				c, err := er.Read(buf)
				if err != nil {
					break
				}
				if c == 0 {
					idle++
				} else {
					idle = 0
				}
			}
			if idle >= 200 {
				t.Fatalf("%s: Read keeps returning nothing", what)
			}
		}
	}
}

type cpioChecked struct {
	t *T
	*cpio.Reader
}

func (c cpioChecked) next() (int64, error) {
	h, err := c.Next()
	if err != nil {
		return 0, err
	}
	if h == nil {
		c.t.Fatalf("Next returned neither a header nor an error")
	}
	_ = cpioHdrText(h)
	return h.Filesize64(), nil
}

type payloadChecked struct {
	t *T
	rpmutils.PayloadReader
}

func (p payloadChecked) next() (int64, error) {
	f, err := p.Next()
	if err != nil {
		return 0, err
	}
	if f == nil {
		p.t.Fatalf("Next returned neither a file nor an error")
	}
	_ = fileText(f)
	return f.Size(), nil
}

// lzmaWindow is the dictionary size a payload declares if it is an lzma stream.
func lzmaWindow(payload []byte) uint32 {
	if len(payload) < 5 {
		return 0
	}
	return binary.LittleEndian.Uint32(payload[1:])
}

func findTagData(tags []HTag, tag int) []byte {
	if h := findTag(tags, tag); h != nil {
		return h.Data
	}
	return nil
}

func init() {
	register(&Check{
		ID:          "C10",
		Rule:        "each case is one malformed or well-formed archive or payload, with any supplied sizes, driven by a random history of Next, Read and IsLink calls or extracted; panics, crashes (including in other goroutines and in native code under AddressSanitizer), endless iterations and hangs are violations; distinct by input and history",
		Assumptions: []string{"lzma streams declaring a window above 64 MiB, which the decoder reserves at once, are left out", "a case that uses no CPU for minutes or burns CPU for minutes counts as a hang"},
		Require:     map[string]int64{"calls": 50000, "calls that failed": 10000, "extractions that failed": 500, "extractions that succeeded": 50},
		Groups: []Group{
			{Name: "archives", N: n(12000, 800000), Run: func(t *T, i int) {
				r := t.R
				var data []byte
				var sizes []int64
				if r.IntN(10) == 0 {
					data = randContent(r, r.IntN(400))
				} else {
					ents, s := randEnts(r, 5, true)
					for _, e := range ents {
						if len(e.Data) > 2000 {
							e.Data = e.Data[:r.IntN(50)]
						}
					}
					sizes = s
					data = renderCpio(r, ents)
					if r.IntN(8) > 0 {
						data = mangleCpio(r, data)
					}
				}
				if r.IntN(2) == 0 {
					for j := range sizes {
						if r.IntN(2) == 0 {
							sizes[j] = hostileSizes[r.IntN(len(hostileSizes))]
						}
					}
				}
				if r.IntN(8) == 0 {
					sizes = nil
				}
				t.Sig(data, fmt.Sprint(sizes), i)
				src := onlyRead{&fragReader{data: data, style: r.IntN(fragStyles), r: r}}
				var rd io.Reader = src
				if r.IntN(2) == 0 {
					rd = bytes.NewReader(data)
				}
				callHistory(t, r, "cpio.Reader", cpioChecked{t, cpio.NewReaderWithSizes(rd, sizes)}, len(data))
				cs := cpio.NewCpioStream(bytes.NewReader(data))
				if r.IntN(2) == 0 {
					cs.SetFileSizes(sizes)
				}
				for k := 0; ; k++ {
					if k > len(data)/14+5 {
						t.Fatalf("the stream yields entry after entry")
					}
					e, err := cs.ReadNextEntry()
					if err != nil {
						break
					}
					_ = cpioHdrText(e.Header)
				}
			}},
			{Name: "payloads", Variants: []string{"cgo", "nocgo", "asan"}, N: n(1400, 40000), Run: func(t *T, i int) {
				r := t.R
				comp := compressors[i%len(compressors)]
				if t.Variant == "asan" {
					comp = "zstd"
				}
				p := genPkg(r, PkgOpt{MaxFiles: 6, Compressor: comp, Stripped: r.IntN(2) == 0})
				if r.IntN(2) == 0 {
					for j := range p.Gen { // file list that does not fit the payload
						h := &p.Gen[j]
						switch h.Tag {
						case gFileSizes, gFileModes, gDirIndexes, gFileInodes, gFileDevices, gLongFileSizes:
							if r.IntN(3) == 0 && len(h.Data) > 0 {
								h.Data[r.IntN(len(h.Data))] ^= 1 << r.IntN(8)
							}
						}
					}
				}
				arch := p.Archive
				if r.IntN(2) == 0 {
					arch = mangleCpio(r, arch)
				}
				p.Payload = arch
				if comp != "" && comp != "uncompressed" {
					p.Payload = compress(r, comp, arch, r.IntN(compressLayouts[comp]))
					for k := r.IntN(3); k > 0 && len(p.Payload) > 0; k-- {
						if r.IntN(4) == 0 {
							p.Payload = p.Payload[:r.IntN(len(p.Payload))]
						} else {
							p.Payload[r.IntN(len(p.Payload))] ^= 1 << r.IntN(8)
						}
					}
				}
				if r.IntN(20) == 0 {
					p.Payload = randContent(r, r.IntN(300))
				}
				if r.IntN(10) == 0 { // recorded as another compressor
					p.Gen = append(dropTags(p.Gen, gPayloadCompressor), strTag(gPayloadCompressor, compressors[r.IntN(6)]))
				}
				if lzmaWindow(p.Payload) > 64<<20 && string(findTagData(p.Gen, gPayloadCompressor)) == "lzma\x00" {
					p.Payload[3], p.Payload[4] = 0, 0 // the window would be reserved at once
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				t.Seen("compressor", comp)
				rpm := func() *rpmutils.Rpm {
					x, err := rpmutils.ReadRpm(onlyRead{&fragReader{data: data, style: r.IntN(fragStyles), r: r}})
					t.must(err)
					return x
				}
				// a decompressor may produce much more than it consumes
				bound := len(data)*2000 + 1<<20
				if pr, err := rpm().PayloadReaderExtended(); err == nil {
					callHistory(t, r, "payload reader ("+comp+")", payloadChecked{t, pr}, bound)
				}
				if cr, err := rpm().PayloadReader(); err == nil {
					callHistory(t, r, "plain payload reader ("+comp+")", cpioChecked{t, cr}, bound)
				}
				if err := rpm().ExpandPayload(filepath.Join(t.Dir(), "x")); err != nil {
					t.Event("extractions that failed")
				} else {
					t.Event("extractions that succeeded")
				}
			}},
			{Name: "extraction", N: n(2500, 100000), Run: func(t *T, i int) {
				r := t.R
				names := []string{"a", "./a", "a/b", "a/b/c", "b", "b/../a", ".", "./", "..", "../x", "", "/", "/abs", "a//b", "a/.", "a/..", "c", strings.Repeat("l", 300), "d\x00e", "\xff\xfe"}
				var ents []*cpioEnt
				for k := r.IntN(7); k >= 0; k-- {
					mode := []int{mReg, mReg, mDir, mLnk, mFifo, mChr, mBlk, 0o140000, 0}[r.IntN(9)]
					var data []byte
					switch mode {
					case mReg:
						data = randContent(r, []int{0, 0, 1, 10, 5000}[r.IntN(5)])
					case mLnk:
						data = []byte([]string{"a", "b", ".", "..", "a/b", "", "/nonexistent/x", "a\x00b", "c", strings.Repeat("q", 5000)}[r.IntN(10)])
					default:
						if r.IntN(5) == 0 {
							data = []byte("unexpected")
						}
					}
					e := newcEnt(names[r.IntN(len(names))], mode|0o755, data)
					if r.IntN(6) == 0 {
						e.Fields[cMode] = uint32(mode | r.IntN(0o10000))
					}
					if mode == mReg && r.IntN(2) == 0 {
						e.Fields[cNlink] = uint32(r.IntN(4))
						e.Fields[cIno] = uint32(r.IntN(3))
					}
					ents = append(ents, e)
				}
				data := renderCpio(r, ents)
				if r.IntN(4) == 0 {
					data = mangleCpio(r, data)
				}
				t.Sig(data)
				dest := t.Dir()
				if r.IntN(2) == 0 {
					dest = filepath.Join(dest, "new", "er")
				}
				times := 1 + r.IntN(2)
				for k := 0; k < times; k++ {
					if err := cpio.Extract(onlyRead{&fragReader{data: data, style: r.IntN(fragStyles), r: r}}, dest); err != nil {
						t.Event("extractions that failed")
					} else {
						t.Event("extractions that succeeded")
					}
				}
			}},
		},
	})
}
