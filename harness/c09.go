package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"syscall"

	"github.com/sassoftware/go-rpmutils/cpio"
)

// C09: a cpio archive is read back entry by entry, byte for byte.

// eqCpio compares an entry header with what was archived.
func eqCpio(h *cpio.Cpio_newc_header, e *cpioEnt, size64 int64) string {
	var diff []string
	cmp := func(what string, got, want any) {
		if got != want {
			diff = append(diff, fmt.Sprintf("%s is %v, archived %v", what, got, want))
		}
	}
	cmp("IsStripped", h.IsStripped(), e.Stripped)
	cmp("Filesize64", h.Filesize64(), size64)
	if e.Stripped {
		cmp("Magic", h.Magic(), "07070X")
		cmp("Index", h.Index(), e.Index)
		return strings.Join(diff, "; ")
	}
	cmp("Magic", h.Magic(), "070701")
	cmp("Filename", h.Filename(), e.Name)
	got := [13]int{h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), h.Devmajor(), h.Devminor(), h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check()}
	names := [13]string{"Ino", "Mode", "Uid", "Gid", "Nlink", "Mtime", "Filesize", "Devmajor", "Devminor", "Rdevmajor", "Rdevminor", "Namesize", "Check"}
	for i := range got {
		cmp(names[i], got[i], int(e.Fields[i]))
	}
	return strings.Join(diff, "; ")
}

// randEnts makes entries with arbitrary field values, names and contents.
func randEnts(r *rand.Rand, max int, allowStripped bool) (ents []*cpioEnt, sizes []int64) {
	k := r.IntN(max + 1)
	mode := r.IntN(3) // 0 newc, 1 stripped, 2 mixed
	if !allowStripped {
		mode = 0
	}
	for i := 0; i < k; i++ {
		var e *cpioEnt
		data := randContent(r, randSize(r))
		if mode == 1 || mode == 2 && r.IntN(2) == 0 {
			e = &cpioEnt{Stripped: true, Data: data}
		} else {
			name := "./" + randName(r)
			switch r.IntN(8) {
			case 0:
				name = ""
			case 1:
				name = strings.Repeat("n", r.IntN(300))
			case 2:
				name = "TRAILER!!" + []string{"", "!.", "?"}[r.IntN(3)]
			case 3:
				b := randContent(r, 1+r.IntN(20))
				name = string(bytes.ReplaceAll(b, []byte{0}, []byte{1}))
			}
			if name == "TRAILER!!!" {
				name = "x"
			}
			e = newcEnt(name, 0, data)
			for f := range e.Fields {
				if f == cSize || f == cNameSize {
					continue
				}
				switch r.IntN(4) {
				case 0:
				case 1:
					e.Fields[f] = []uint32{0xffffffff, 0x80000000, 0x7fffffff, 1, 0xabcdef01}[r.IntN(5)]
				default:
					e.Fields[f] = r.Uint32()
				}
			}
		}
		e.UpperHex = r.IntN(2) == 0
		ents = append(ents, e)
	}
	// the sizes of stripped entries are given by index, in any order
	var st []*cpioEnt
	for _, e := range ents {
		if e.Stripped {
			st = append(st, e)
		}
	}
	if mode > 0 {
		slots := len(st) + r.IntN(4)
		sizes = make([]int64, slots)
		for i := range sizes {
			sizes[i] = int64(r.IntN(100))
		}
		for i, j := range r.Perm(slots)[:len(st)] {
			st[i].Index = j
			sizes[j] = int64(len(st[i].Data))
		}
		if len(st) > 1 && r.IntN(4) == 0 { // the same file twice
			st[1].Index, st[1].Data = st[0].Index, st[0].Data
		}
	}
	return ents, sizes
}

// renderCpio writes the entries with arbitrary padding bytes.
func renderCpio(r *rand.Rand, ents []*cpioEnt) []byte {
	var w cpioWriter
	if r.IntN(2) == 0 {
		w.pad = func() byte { return byte(r.IntN(256)) }
	}
	for _, e := range ents {
		w.add(e)
	}
	tr := trailerEnt()
	if r.IntN(3) == 0 {
		tr.Fields[cIno], tr.Fields[cMtime] = r.Uint32(), r.Uint32()
	}
	tr.UpperHex = r.IntN(2) == 0
	w.head(tr)
	b := w.b.Bytes()
	switch r.IntN(4) {
	case 0: // ends right after the name
		b = b[:bytes.LastIndex(b, []byte("TRAILER!!!\x00"))+11]
	case 1:
		b = append(b, randContent(r, r.IntN(600))...)
	}
	return b
}

// readPattern consumes the current entry in one of many ways and compares.
func readPattern(t *T, r *rand.Rand, what string, cr io.Reader, want []byte) {
	limit := -1 // everything
	switch r.IntN(4) {
	case 0:
		t.Event("files not read")
		return
	case 1:
		if len(want) > 0 {
			limit = r.IntN(len(want) + 1)
		}
	}
	maxBuf := []int{1, 3, 17, 512, 100000}[r.IntN(5)]
	if len(want) > 5000 && maxBuf < 17 {
		maxBuf = 512
	}
	var got []byte
	empty := 0
	for limit < 0 || len(got) < limit {
		size := 1 + r.IntN(maxBuf)
		if r.IntN(16) == 0 {
			size = 0
		}
		if limit >= 0 {
			size = min(size, limit-len(got))
		}
		buf := make([]byte, size+8)
		for i := range buf {
			buf[i] = 0xa5
		}
		k, err := cr.Read(buf[:size])
		if k < 0 || k > size {
			t.Fatalf("%s: Read returned %d for a buffer of %d", what, k, size)
		}
		for _, c := range buf[size:] {
			if c != 0xa5 {
				t.Fatalf("%s: Read wrote beyond its buffer", what)
			}
		}
		got = append(got, buf[:k]...)
		if err == io.EOF {
			break
		} else if err != nil {
			t.Fatalf("%s: Read after %d of %d bytes: %v", what, len(got), len(want), err)
		}
		if k == 0 && size > 0 {
			if empty++; empty > 100 {
				t.Fatalf("%s: Read returns nothing", what)
			}
		} else {
			empty = 0
		}
	}
	if limit < 0 {
		if !bytes.Equal(got, want) {
			t.Errorf("%s: %d bytes read, archived %d; content equal: false", what, len(got), len(want))
		}
		t.Event("files read completely")
		for k := 0; k < 2; k++ { // stays at the end
			if c, err := cr.Read(make([]byte, 10)); c != 0 || err != io.EOF {
				t.Errorf("%s: Read after the end of the file: %d, %v", what, c, err)
			}
		}
	} else {
		if !bytes.HasPrefix(want, got) {
			t.Errorf("%s: the first %d bytes differ from the archived ones", what, len(got))
		}
		t.Event("files read partially")
	}
	t.Event("content bytes compared", len(got))
}

// sourceOf presents an archive through different kinds of readers, possibly
// starting in the middle of a larger stream.
func sourceOf(r *rand.Rand, data []byte) (io.Reader, string, func()) {
	if r.IntN(4) == 0 {
		style := r.IntN(fragStyles)
		return onlyRead{&fragReader{data: data, style: style, r: r}}, fragNames[style], func() {}
	}
	kind := r.IntN(len(naturalNames))
	rd, done := natural(r, kind, data)
	return rd, naturalNames[kind], done
}

func init() {
	register(&Check{
		ID:   "C09",
		Rule: "each case is one archive (newc, stripped or mixed entries; arbitrary field values, names, padding and contents) iterated with a random reading pattern per entry; every header field, size and content byte is compared with the generator's model; distinct by archive and pattern",
		Assumptions: []string{
			"fields other than the size may hold any 32-bit value (64-bit platform)",
			"multi-gigabyte contents are synthetic (position-dependent bytes) and checked by sampling",
		},
		Require: map[string]int64{"entries compared": 10000, "files read completely": 2000, "files read partially": 1000, "files not read": 1000, "large entries passed": 6, "entries with long names": 50},
		Groups: []Group{
			{Name: "constants", N: n(1, 1), Run: func(t *T, i int) {
				for k, c := range [][2]int{
					{cpio.S_ISUID, syscall.S_ISUID}, {cpio.S_ISGID, syscall.S_ISGID}, {cpio.S_ISVTX, syscall.S_ISVTX},
					{cpio.S_ISDIR, syscall.S_IFDIR}, {cpio.S_ISFIFO, syscall.S_IFIFO}, {cpio.S_ISREG, syscall.S_IFREG}, {cpio.S_ISLNK, syscall.S_IFLNK},
					{cpio.S_ISBLK, syscall.S_IFBLK}, {cpio.S_ISCHR, syscall.S_IFCHR}, {cpio.S_ISSOCK, syscall.S_IFSOCK},
				} {
					if c[0] != c[1] {
						t.Errorf("constant %d is 0%o, archives have 0%o", k, c[0], c[1])
					}
				}
			}},
			{Name: "random", N: n(6000, 300000), Run: func(t *T, i int) {
				r := t.R
				ents, sizes := randEnts(r, 8, true)
				data := renderCpio(r, ents)
				t.Sig(data, i)
				src, kind, done := sourceOf(r, data)
				defer done()
				t.Seen("source", kind)
				cr := cpio.NewReaderWithSizes(src, sizes)
				if sizes == nil && r.IntN(2) == 0 {
					cr = cpio.NewReader(src)
				}
				if r.IntN(4) == 0 {
					if k, err := cr.Read(make([]byte, 5)); k != 0 || err == nil {
						t.Errorf("Read before Next: %d, %v", k, err)
					}
				}
				var hs []*cpio.Cpio_newc_header
				size := func(e *cpioEnt) int64 {
					if e.Stripped {
						return sizes[e.Index]
					}
					return int64(e.Fields[cSize])
				}
				for k, e := range ents {
					what := fmt.Sprintf("entry %d of %d (%q)", k, len(ents), e.Name)
					h, err := cr.Next()
					if err != nil {
						t.Fatalf("%s: Next: %v", what, err)
					}
					if d := eqCpio(h, e, size(e)); d != "" {
						t.Errorf("%s: %s", what, d)
					}
					hs = append(hs, h)
					t.Event("entries compared")
					readPattern(t, r, what, cr, e.Data)
				}
				for k := 0; k < 3; k++ {
					if h, err := cr.Next(); err != io.EOF || h != nil {
						t.Errorf("Next after the last of %d entries: %v, %v", len(ents), h, err)
					}
				}
				for k, h := range hs { // still the same after all that
					if d := eqCpio(h, ents[k], size(ents[k])); d != "" {
						t.Errorf("entry %d, looked at after the end: %s", k, d)
					}
				}
				if len(ents) == 0 {
					t.Event("empty archives")
				}
				if i < 2 {
					t.Sample(map[string]any{"entries": len(ents), "bytes": len(data), "source": kind})
				}
			}},
			{Name: "stream", N: n(1500, 50000), Run: func(t *T, i int) {
				// the lower-level stream reports entries including the trailer
				r := t.R
				ents, sizes := randEnts(r, 8, true)
				data := renderCpio(r, ents)
				t.Sig(data)
				src, _, done := sourceOf(r, data)
				defer done()
				cs := cpio.NewCpioStream(src)
				cs.SetFileSizes(sizes)
				for k, e := range ents {
					ent, err := cs.ReadNextEntry()
					if err != nil {
						t.Fatalf("entry %d of %d: %v", k, len(ents), err)
					}
					want := int64(e.Fields[cSize])
					if e.Stripped {
						want = sizes[e.Index]
					}
					if d := eqCpio(ent.Header, e, want); d != "" {
						t.Errorf("entry %d: %s", k, d)
					}
					t.Event("entries compared")
				}
				ent, err := cs.ReadNextEntry()
				if err != nil || ent.Header.Filename() != "TRAILER!!!" {
					t.Errorf("at the end: %v, %v", ent, err)
				}
			}},
			{Name: "many entries", N: n(10, 100), Run: func(t *T, i int) {
				r := t.R
				k := []int{20000, 300, 70000, 5000, 1}[i%5]
				var ents []*cpioEnt
				var sizes []int64
				for j := 0; j < k; j++ {
					data := randContent(r, []int{0, 1, 2, 3, 4, 5, 30, 200}[r.IntN(8)])
					if i%2 == 0 && r.IntN(3) > 0 {
						ents = append(ents, &cpioEnt{Stripped: true, Index: len(sizes), Data: data, UpperHex: r.IntN(2) == 0})
						sizes = append(sizes, int64(len(data)))
						continue
					}
					name := fmt.Sprintf("./%d", j)
					if l := []int{255, 4095, 4096, 5000, 65535, 65536, 100000}[r.IntN(7)]; k < 1000 && r.IntN(4) == 0 || j == k-1 {
						name = strings.Repeat("n", l-1+r.IntN(3))
						t.Event("entries with long names")
					}
					ents = append(ents, newcEnt(name, mReg|0o644, data))
				}
				data := renderCpio(r, ents)
				t.Sig(data)
				src, kind, done := sourceOf(r, data)
				defer done()
				cr := cpio.NewReaderWithSizes(src, sizes)
				every := r.IntN(3) // read everything, something, nothing
				for j, e := range ents {
					what := fmt.Sprintf("entry %d of %d from a %s", j, k, kind)
					h, err := cr.Next()
					if err != nil {
						t.Fatalf("%s: Next: %v", what, err)
					}
					if d := eqCpio(h, e, int64(len(e.Data))); d != "" {
						t.Fatalf("%s: %.300s", what, d)
					}
					t.Event("entries compared")
					if every == 0 || every == 1 && r.IntN(2) == 0 {
						if b, err := io.ReadAll(cr); err != nil || !bytes.Equal(b, e.Data) {
							t.Fatalf("%s: %q, %v; archived %q", what, b, err, e.Data)
						}
					}
				}
				if h, err := cr.Next(); err != io.EOF || h != nil {
					t.Errorf("Next after the last of %d entries: %v, %v", k, h, err)
				}
				t.Sample(map[string]any{"entries": k, "bytes": len(data)})
			}},
			{Name: "sizes", N: n(300, 5000), Run: func(t *T, i int) {
				// a size that no content can follow is still reported as given
				r := t.R
				size := []int64{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 - 1, 1 << 40, 1<<40 + 5, 1<<53 + 1, 1 << 62, 1<<63 - 1}[r.IntN(10)]
				if r.IntN(2) == 0 {
					size = r.Int64() >> r.IntN(40)
				}
				e := &cpioEnt{Stripped: true, Index: r.IntN(20), UpperHex: r.IntN(2) == 0}
				sizes := make([]int64, e.Index+1+r.IntN(3))
				for j := range sizes {
					sizes[j] = r.Int64()
				}
				sizes[e.Index] = size
				var w cpioWriter
				w.head(e)
				w.b.WriteString("content")
				t.Sig(size, e.Index)
				var h *cpio.Cpio_newc_header
				var err error
				if r.IntN(2) == 0 {
					h, err = cpio.NewReaderWithSizes(bytes.NewReader(w.b.Bytes()), sizes).Next()
				} else {
					cs := cpio.NewCpioStream(bytes.NewReader(w.b.Bytes()))
					cs.SetFileSizes(sizes)
					var ent *cpio.CpioEntry
					if ent, err = cs.ReadNextEntry(); err == nil {
						h = ent.Header
					}
				}
				if err != nil {
					t.Fatalf("entry of %d bytes: %v", size, err)
				}
				if d := eqCpio(h, e, size); d != "" {
					t.Errorf("entry of %d bytes: %s", size, d)
				}
				t.Event("entries compared")
			}},
			{Name: "large", N: n(6, 24), Run: func(t *T, i int) {
				r := t.R
				big := []int64{0xffffffff, 5<<30 + 3, 0x80000000, 1<<32 + 1, 0x7fffffff, 0xfffffffc}[i%6]
				first := newcEnt("first", mReg, randContent(r, r.IntN(50)))
				stripped := big > 0xffffffff
				e := newcEnt("big", mReg|0o644, nil)
				e.Fields[cSize] = uint32(big)
				var sizes []int64
				if stripped {
					e = &cpioEnt{Stripped: true, Index: 1}
					sizes = []int64{7, big, 7}
				}
				last := newcEnt("last", mReg|0o600, []byte("last content"))
				var w cpioWriter
				w.add(first)
				w.head(e)
				pad := (4 - (int64(w.b.Len())+big)%4) % 4
				tail, _, _ := buildCpio([]*cpioEnt{last}, 3)
				src := io.MultiReader(bytes.NewReader(w.b.Bytes()), &patternReader{left: big}, bytes.NewReader(make([]byte, pad)), bytes.NewReader(tail))
				t.Sig(big, i)
				cr := cpio.NewReaderWithSizes(src, sizes)
				h, err := cr.Next()
				if err != nil {
					t.Fatalf("first: %v", err)
				}
				if d := eqCpio(h, first, int64(len(first.Data))); d != "" {
					t.Errorf("first: %s", d)
				}
				if h, err = cr.Next(); err != nil {
					t.Fatalf("entry of %d bytes: %v", big, err)
				}
				if d := eqCpio(h, e, big); d != "" {
					t.Errorf("entry of %d bytes: %s", big, d)
				}
				upTo := []int64{0, 1000, big}[(i/6+i)%3]
				buf := make([]byte, 1<<20)
				var pos int64
				for pos < upTo {
					k, err := cr.Read(buf[:min(int64(len(buf)), upTo-pos)])
					for j := 0; j < k; j += 997 {
						if buf[j] != patternAt(pos+int64(j)) {
							t.Fatalf("byte %d of %d is wrong", pos+int64(j), big)
						}
					}
					pos += int64(k)
					if err != nil {
						t.Fatalf("reading byte %d of %d: %v", pos, big, err)
					}
				}
				if upTo == big {
					if k, err := cr.Read(buf); k != 0 || err != io.EOF {
						t.Errorf("after %d bytes: %d, %v", big, k, err)
					}
				}
				if h, err = cr.Next(); err != nil {
					t.Fatalf("after an entry of %d bytes: %v", big, err)
				}
				if d := eqCpio(h, last, int64(len(last.Data))); d != "" {
					t.Errorf("last: %s", d)
				}
				b, err := io.ReadAll(cr)
				if err != nil || string(b) != "last content" {
					t.Errorf("last: %q, %v", b, err)
				}
				if _, err := cr.Next(); err != io.EOF {
					t.Errorf("end: %v", err)
				}
				t.Event("large entries passed")
				t.Sample(map[string]any{"size": big, "read": upTo})
			}},
		},
	})
}

func patternAt(pos int64) byte { return byte(pos ^ pos>>8 ^ pos>>20 ^ pos>>32) }

// patternReader delivers patternAt(0), patternAt(1), ...
type patternReader struct{ pos, left int64 }

func (p *patternReader) Read(d []byte) (int, error) {
	if p.left == 0 {
		return 0, io.EOF
	}
	k := int(min(int64(len(d)), p.left))
	for i := 0; i < k; i++ {
		q := p.pos + int64(i)
		d[i] = byte(q ^ q>>8 ^ q>>20 ^ q>>32)
	}
	p.pos += int64(k)
	p.left -= int64(k)
	return k, nil
}
