package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C11: the payload reader pairs every file with its own metadata and content.

// spreadInodes gives files device and inode numbers with look-alikes: equal
// inodes on different devices, extreme numbers, zero.
func spreadInodes(r *rand.Rand, files []*File) {
	type id struct{ d, i uint32 }
	used := map[id]id{}
	taken := map[id]bool{}
	alike := func(a id) id {
		if r.IntN(2) == 0 {
			alikePair(r, &a.d, &a.i)
		} else {
			alikePair(r, &a.i, &a.d)
		}
		return a
	}
	var last []id
	pool := []uint32{1, 2, 3, 0xffffffff, 0x80000000, 0x7fffffff, 0, 65536, 0x10000000}
	for _, f := range files {
		k := id{f.Dev, f.Ino}
		n, ok := used[k]
		for !ok {
			n = id{pool[r.IntN(len(pool))], pool[r.IntN(len(pool))]}
			if r.IntN(3) == 0 {
				n.i = r.Uint32()
			}
			if len(last) > 0 && r.IntN(3) > 0 {
				n = alike(last[r.IntN(len(last))])
			}
			if n.i != 0 && !taken[n] {
				break
			}
		}
		if !taken[n] {
			last = append(last, n)
		}
		used[k], taken[n] = n, true
		f.Dev, f.Ino = n.d, n.i
	}
}

// payloadOrder is the order in which the payload stores the files.
func payloadOrder(r *rand.Rand, files []*File) []int {
	order := make([]int, len(files))
	for i := range order {
		order[i] = i
	}
	switch r.IntN(3) {
	case 0:
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	case 1: // hard links at the end, as rpm does
		var a, b []int
		for _, i := range order {
			if files[i].Nlink > 1 {
				b = append(b, i)
			} else {
				a = append(a, i)
			}
		}
		order = append(a, b...)
	}
	return order
}

func archivedOrder(files []*File, order []int) []*File {
	var out []*File
	for _, i := range order {
		if !files[i].Ghost {
			out = append(out, files[i])
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:   "C11",
		Rule: "each case is one package whose payload stores its files in some order, by name or by index, with hard-link groups, ghosts and look-alike inodes; the metadata, link flag and content delivered for each payload entry are compared with the generator's model; or a payload with an entry matching no file, which must be an error; distinct by package bytes and reading pattern",
		Assumptions: []string{
			"listed names are distinct; names stored in the payload are the listed ones or those preceded by '.'",
			"inode 0 is not shared by regular files on a device other than 0",
		},
		Require: map[string]int64{"payload entries compared": 8000, "links flagged": 800, "unknown entries refused": 500, "files beyond 4 GiB": 2, "payloads of many files": 8},
		Groups: []Group{
			{Name: "pairing", N: n(4000, 200000), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}, Source: r.IntN(6) == 0}
				p.Gen = basicTags(r, p.Name)
				p.Files = genFiles(r, FilesOpt{Max: 10, Ghosts: true, Special: true, Links: true, Source: p.Source})
				o := FileTagOpt{OldNames: r.IntN(4) == 0, Long: r.IntN(2) == 0, NoDevIno: r.IntN(6) == 0, ModeWidth: []int{16, 32}[r.IntN(2)],
					NoSlash: r.IntN(6) == 0, MoreDirs: r.IntN(4) == 0}
				o.BothSizes = o.Long && r.IntN(2) == 0
				if !p.Source && !o.OldNames && r.IntN(6) == 0 {
					p.Files = append(p.Files, &File{Path: "/", Dir: "/", Mode: mDir | 0o755, Nlink: 1, Dev: 1, Ino: 999999, HSize: 4096})
				}
				spreadInodes(r, p.Files)
				if o.NoDevIno || r.IntN(8) == 0 { // nothing can be told apart: no links
					for _, f := range p.Files {
						f.Dev, f.Ino = 0, 0
					}
				}
				markLinks(p.Files)
				p.Gen = append(p.Gen, fileTags(r, p.Files, o)...)
				order := payloadOrder(r, p.Files)
				stripped := r.IntN(2) == 0
				dot := []string{"", "."}[r.IntN(2)]
				p.Archive, _ = archiveOf(r, p.Files, stripped, dot, order)
				comp := []string{"", "gzip", "zstd", "uncompressed"}[r.IntN(4)]
				p.Payload = p.Archive
				if comp != "" {
					p.Gen = append(p.Gen, strTag(gPayloadCompressor, comp))
					p.Payload = compress(r, comp, p.Archive, 0)
				}
				p.SigOpt, p.GenOpt = randHOpt(r, 62), randHOpt(r, 63)
				p.Finish(r)
				t.Sig(p.Bytes())
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.Bytes()))
				if err != nil {
					t.Fatalf("ReadRpm: %v", err)
				}
				pr, err := rpm.PayloadReaderExtended()
				if err != nil {
					t.Fatalf("PayloadReaderExtended: %v", err)
				}
				model := archivedOrder(p.Files, order)
				var infos []rpmutils.FileInfo
				for k, f := range model {
					what := fmt.Sprintf("payload entry %d of %d (%q, stripped %v, dot %q)", k, len(model), f.Path, stripped, dot)
					info, err := pr.Next()
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
					if d := eqFile(info, f, o.NoDevIno); d != "" {
						t.Errorf("%s: %s", what, d)
					}
					infos = append(infos, info)
					if pr.IsLink() != f.IsLink {
						t.Errorf("%s: IsLink is %v (device %d, inode %d, %d links)", what, pr.IsLink(), f.Dev, f.Ino, f.Nlink)
					}
					if f.IsLink {
						t.Event("links flagged")
					}
					readPattern(t, r, what, pr, f.archived())
					if pr.IsLink() != f.IsLink {
						t.Errorf("%s: IsLink is %v after reading", what, pr.IsLink())
					}
					t.Event("payload entries compared")
				}
				for k := 0; k < 2; k++ {
					if info, err := pr.Next(); err != io.EOF || info != nil {
						t.Errorf("after the last entry: %v, %v", info, err)
					}
				}
				for k, f := range model {
					if d := eqFile(infos[k], f, o.NoDevIno); d != "" {
						t.Errorf("entry %d, looked at after the end: %s", k, d)
					}
				}
				if i < 3 {
					t.Sample(map[string]any{"files": len(p.Files), "order": order, "stripped": stripped, "compressor": comp})
				}
			}},
			{Name: "many files", N: n(8, 80), Run: func(t *T, i int) {
				r := t.R
				k := []int{300, 3000, 20000, 70000}[i%4]
				k += r.IntN(k / 4)
				p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}}
				p.Gen = append(basicTags(r, p.Name), strTag(gPayloadCompressor, "uncompressed"))
				p.Files = bulkFiles(r, k)
				p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{OldNames: r.IntN(3) == 0, Long: r.IntN(2) == 0, MoreDirs: r.IntN(4) == 0})...)
				order := payloadOrder(r, p.Files)
				stripped := i/4%2 == 0
				p.Archive, _ = archiveOf(r, p.Files, stripped, []string{"", "."}[r.IntN(2)], order)
				p.Payload = p.Archive
				p.Finish(r)
				t.Sig(p.Bytes())
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.Bytes()))
				if err != nil {
					t.Fatalf("ReadRpm: %v", err)
				}
				pr, err := rpm.PayloadReaderExtended()
				if err != nil {
					t.Fatalf("PayloadReaderExtended: %v", err)
				}
				for j, f := range archivedOrder(p.Files, order) {
					what := fmt.Sprintf("payload entry %d of %d (%q, stripped %v)", j, k, f.Path, stripped)
					info, err := pr.Next()
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
					if d := eqFile(info, f, false); d != "" {
						t.Fatalf("%s: %s", what, d)
					}
					if pr.IsLink() != f.IsLink {
						t.Fatalf("%s: IsLink is %v", what, pr.IsLink())
					}
					if b, err := io.ReadAll(pr); err != nil || !bytes.Equal(b, f.archived()) {
						t.Fatalf("%s: content %q, %v; archived %q", what, b, err, f.archived())
					}
					if f.IsLink {
						t.Event("links flagged")
					}
					t.Event("payload entries compared")
				}
				if _, err := pr.Next(); err != io.EOF {
					t.Errorf("after %d entries: %v", k, err)
				}
				t.Event("payloads of many files")
				t.Sample(map[string]any{"files": k, "stripped": stripped})
			}},
			{Name: "unknown", N: n(1200, 40000), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}}
				p.Gen = append(basicTags(r, p.Name), strTag(gPayloadCompressor, "uncompressed"))
				p.Files = genFiles(r, FilesOpt{Max: 6, Links: true})
				p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{})...)
				stripped := r.IntN(2) == 0
				var ents []*cpioEnt
				_, ents = archiveOf(r, p.Files, stripped, ".", nil)
				pos := r.IntN(len(ents) + 1)
				var odd *cpioEnt
				if stripped {
					idx := len(p.Files) + []int{0, 1, 100}[r.IntN(3)]
					if r.IntN(3) == 0 {
						idx = []int{0x7fffffff, 0xffffffff, 0x80000000}[r.IntN(3)]
					}
					odd = &cpioEnt{Stripped: true, Index: idx}
				} else {
					name := []string{"./no/such", "", ".", "./", "..", "no", "./.", "/no/such/./x"}[r.IntN(8)]
					if len(p.Files) > 0 && r.IntN(2) == 0 { // near misses
						f := p.Files[r.IntN(len(p.Files))]
						name = []string{"." + f.Path + "x", "." + f.Path + "/", "x" + f.Path, f.Path[:len(f.Path)-1], ".." + f.Path, "././" + f.Path, strings.ToUpper(f.Path) + "Q", "//" + f.Path}[r.IntN(8)]
					}
					for _, f := range p.Files {
						if name == f.Path || name == "."+f.Path {
							t.Trivial()
							return
						}
					}
					odd = newcEnt(name, mReg|0o644, []byte("odd"))
				}
				ents = append(ents[:pos:pos], append([]*cpioEnt{odd}, ents[pos:]...)...)
				p.Archive, _, _ = buildCpio(ents, 0)
				p.Payload = p.Archive
				p.Finish(r)
				t.Sig(p.Bytes())
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.Bytes()))
				t.must(err)
				pr, err := rpm.PayloadReaderExtended()
				if err != nil {
					t.Fatalf("PayloadReaderExtended: %v", err)
				}
				for k := 0; k < pos; k++ {
					if _, err := pr.Next(); err != nil {
						t.Fatalf("entry %d: %v", k, err)
					}
				}
				if info, err := pr.Next(); err == nil {
					t.Errorf("an entry matching no file (name %q, stripped %v, index %#x of %d files) is reported as %q", odd.Name, stripped, odd.Index, len(p.Files), info.Name())
				} else if err == io.EOF {
					t.Errorf("an entry matching no file (name %q, index %#x) ends the payload normally", odd.Name, odd.Index)
				}
				t.Event("unknown entries refused")
			}},
			{Name: "large", N: n(2, 8), Run: func(t *T, i int) {
				r := t.R
				big := []int64{5<<30 + 1, 4 << 30, 0x80000000 * 3, 1<<32 - 1}[i%4]
				p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}}
				p.Gen = append(basicTags(r, p.Name), strTag(gPayloadCompressor, "uncompressed"))
				p.Files = []*File{
					{Path: "/a/first", Dir: "/a/", Base: "first", Mode: mReg | 0o644, Dev: 1, Ino: 1, Nlink: 2, IsLink: true, HSize: uint64(big)},
					{Path: "/a/small", Dir: "/a/", Base: "small", Mode: mReg | 0o644, Dev: 1, Ino: 2, Nlink: 1, Content: []byte("small"), HSize: 5},
					{Path: "/a/big", Dir: "/a/", Base: "big", Mode: mReg | 0o644, Dev: 1, Ino: 1, Nlink: 2, HSize: uint64(big)},
					{Path: "/a/last", Dir: "/a/", Base: "last", Mode: mReg | 0o644, Dev: 1, Ino: 3, Nlink: 1, Content: []byte("last"), HSize: 4},
				}
				p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{Long: true})...)
				var w cpioWriter
				w.add(&cpioEnt{Stripped: true, Index: 0})
				w.add(&cpioEnt{Stripped: true, Index: 1, Data: []byte("small")})
				w.head(&cpioEnt{Stripped: true, Index: 2})
				pad := (4 - (int64(w.b.Len())+big)%4) % 4
				tail, _, _ := buildCpio([]*cpioEnt{{Stripped: true, Index: 3, Data: []byte("last")}}, 0)
				p.Finish(r)
				t.Sig(big)
				src := io.MultiReader(bytes.NewReader(p.Bytes()), bytes.NewReader(w.b.Bytes()), &patternReader{left: big}, bytes.NewReader(make([]byte, pad)), bytes.NewReader(tail))
				rpm, err := rpmutils.ReadRpm(src)
				if err != nil {
					t.Fatalf("ReadRpm: %v", err)
				}
				pr, err := rpm.PayloadReaderExtended()
				if err != nil {
					t.Fatalf("PayloadReaderExtended: %v", err)
				}
				for k, f := range p.Files {
					info, err := pr.Next()
					if err != nil {
						t.Fatalf("entry %d: %v", k, err)
					}
					if d := eqFile(info, f, false); d != "" {
						t.Errorf("%s", d)
					}
					if pr.IsLink() != f.IsLink {
						t.Errorf("IsLink of %s is %v", f.Path, pr.IsLink())
					}
					if k != 2 {
						b, err := io.ReadAll(pr)
						if err != nil || !bytes.Equal(b, f.archived()) {
							t.Errorf("content of %s: %q, %v", f.Path, b, err)
						}
						continue
					}
					buf := make([]byte, 1<<20)
					var pos int64
					for i%2 == 0 {
						c, err := pr.Read(buf)
						for j := 0; j < c; j += 991 {
							if buf[j] != patternAt(pos+int64(j)) {
								t.Fatalf("byte %d of %d is wrong", pos+int64(j), big)
							}
						}
						pos += int64(c)
						if err == io.EOF {
							break
						} else if err != nil {
							t.Fatalf("byte %d of %d: %v", pos, big, err)
						}
					}
					if i%2 == 0 && pos != big {
						t.Errorf("%d bytes delivered of %d", pos, big)
					}
				}
				if _, err := pr.Next(); err != io.EOF {
					t.Errorf("end: %v", err)
				}
				t.Event("files beyond 4 GiB")
			}},
		},
	})
}
