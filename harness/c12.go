package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"path/filepath"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C12: payload compression is transparent.

// hardContents gives files contents that exercise block and window limits.
func hardContents(r *rand.Rand, files []*File, total int) {
	var regs []*File
	for _, f := range files {
		if f.ftype() == mReg && f.Nlink == 1 {
			regs = append(regs, f)
		}
	}
	for _, f := range regs {
		size := total/len(regs) + r.IntN(5)
		b := make([]byte, 0, size+70000)
		for len(b) < size {
			switch r.IntN(4) {
			case 0: // incompressible
				b = append(b, randContent(r, r.IntN(70000))...)
			case 1: // far matches
				if len(b) > 100 {
					at := r.IntN(len(b))
					b = append(b, b[at:min(len(b), at+r.IntN(40000))]...)
				} else {
					b = append(b, 7)
				}
			case 2:
				b = append(b, bytes.Repeat([]byte{byte(r.IntN(256))}, r.IntN(300000))...)
			default:
				b = append(b, randContent(r, r.IntN(3000))...)
			}
		}
		f.Content = b[:size]
		f.HSize = uint64(size)
	}
}

// moreLayouts are layouts beyond those of compress.
func moreLayouts(r *rand.Rand, comp string, data []byte, k int) ([]byte, string) {
	switch comp {
	case "zstd":
		switch k % 4 {
		case 0: // skippable frames before and between frames
			var b bytes.Buffer
			for i, part := range split(r, data, 3) {
				b.Write(binary.LittleEndian.AppendUint32(nil, 0x184d2a50+uint32(i)))
				skip := randContent(r, r.IntN(50))
				b.Write(binary.LittleEndian.AppendUint32(nil, uint32(len(skip))))
				b.Write(skip)
				b.Write(compress(r, "zstd", part, 0))
			}
			return b.Bytes(), "skippable frames"
		case 1:
			if out, ok := tool(data, "zstd", "-c", "--ultra", "-22"); ok {
				return out, "ultra"
			}
		case 2:
			if out, ok := tool(data, "zstd", "-c", "-T4", "-B500000"); ok {
				return out, "multi-threaded"
			}
		}
		return compress(r, comp, data, 4), "multi-frame"
	case "gzip":
		var b bytes.Buffer
		for _, part := range split(r, data, 20) {
			b.Write(compress(r, comp, part, 1+r.IntN(9)))
		}
		return b.Bytes(), "20 members of different levels"
	case "bzip2":
		if out, ok := tool(data, "bzip2", "-c", "-s"); ok {
			return out, "small"
		}
	case "xz":
		args := [][]string{{"-c", "-e", "-9"}, {"-c", "--lzma2=dict=4KiB,lc=0,lp=4,pb=4"}, {"-c", "-T4", "--block-size=100000"}, {"-c", "--check=crc64", "-2"}}[k%4]
		if out, ok := tool(data, "xz", args...); ok {
			return out, fmt.Sprint(args)
		}
	case "lzma":
		args := [][]string{{"--format=lzma", "-c", "-1"}, {"--format=lzma", "-c", "--lzma1=dict=4KiB,lc=4,lp=0,pb=0"}}[k%2]
		if out, ok := tool(data, "xz", args...); ok {
			return out, fmt.Sprint(args)
		}
	}
	return compress(r, comp, data, 0), "plain"
}

// sameAsRaw compares what a compressed package yields with its raw archive.
func sameAsRaw(t *T, what string, p *Pkg, data []byte) {
	r := t.R
	open := func() *rpmutils.Rpm {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
		if err != nil {
			t.Fatalf("%s: ReadRpm: %v", what, err)
		}
		return rpm
	}
	bufSize := []int{100, 4096, 1 << 17}[r.IntN(3)]
	plan := func(int) int { return -1 }
	if r.IntN(3) == 0 {
		plan = randPlan(r)
	}
	pr, err := open().PayloadReaderExtended()
	if err != nil {
		t.Fatalf("%s: PayloadReaderExtended: %v", what, err)
	}
	files, err := drainExtended(pr, bufSize, plan)
	if err != nil {
		t.Fatalf("%s: after %d files: %v", what, len(files), err)
	}
	k := 0
	for _, f := range p.Files {
		if f.Ghost {
			continue
		}
		if k >= len(files) {
			break
		}
		want := f.archived()
		if lim := plan(k); lim >= 0 {
			want = want[:min(lim, len(want))]
		}
		if files[k].info.Name() != f.Path || !bytes.Equal(files[k].content, want) {
			t.Errorf("%s: entry %d is %q with %d bytes, archived %q with %d bytes (content equal: %v)", what, k, files[k].info.Name(), len(files[k].content), f.Path, len(want), bytes.Equal(files[k].content, want))
		}
		k++
		t.Event("entries compared")
	}
	if k != len(files) {
		t.Errorf("%s: %d entries, archived %d", what, len(files), k)
	}
	if p.stripped() {
		return
	}
	ref, err := drainCpio(cpio.NewReader(bytes.NewReader(p.Archive)), bufSize, plan)
	if err != nil {
		t.Fatalf("%s: the raw archive does not read: %v", what, err)
	}
	cr, err := open().PayloadReader()
	if err != nil {
		t.Fatalf("%s: PayloadReader: %v", what, err)
	}
	got, err := drainCpio(cr, bufSize, plan)
	if err != nil || got != ref {
		t.Errorf("%s: PayloadReader differs from the raw archive: %v", what, err)
	}
	dir := t.Dir()
	a, b := filepath.Join(dir, "raw"), filepath.Join(dir, "rpm")
	e1 := cpio.Extract(bytes.NewReader(p.Archive), a)
	e2 := open().ExpandPayload(b)
	if (e1 == nil) != (e2 == nil) {
		t.Errorf("%s: Extract: %v, ExpandPayload: %v", what, e1, e2)
	} else if e1 == nil {
		if ta, tb := treeText(a), treeText(b); ta != tb {
			t.Errorf("%s: the extracted trees differ:\n%.1500s\n%.1500s", what, ta, tb)
		}
		t.Event("trees compared")
	}
}

// bigPkg makes a package of a few files with that many bytes of contents.
func bigPkg(r *rand.Rand, comp string, stripped bool, total int) *Pkg {
	p := &Pkg{Name: "big", Digests: DigestCfg{SHA256: "ok"}}
	p.Gen = basicTags(r, "big")
	if comp != "" {
		p.Gen = append(p.Gen, strTag(gPayloadCompressor, comp))
	}
	for k := 0; k < 1 || fullFiles(p.Files) == 0; k++ {
		p.Files = genFiles(r, FilesOpt{Max: 6})
	}
	hardContents(r, p.Files, total)
	p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{Long: r.IntN(2) == 0})...)
	p.Archive, _ = archiveOf(r, p.Files, stripped, ".", nil)
	p.Payload = p.Archive
	if comp != "" && comp != "uncompressed" {
		p.Payload = compress(r, comp, p.Archive, r.IntN(compressLayouts[comp]))
	}
	p.Finish(r)
	return p
}

// fullFiles counts the files that hardContents fills.
func fullFiles(files []*File) int {
	k := 0
	for _, f := range files {
		if f.ftype() == mReg && f.Nlink == 1 {
			k++
		}
	}
	return k
}

func init() {
	comps := []string{"gzip", "bzip2", "xz", "lzma", "zstd", "uncompressed"}
	register(&Check{
		ID:   "C12",
		Rule: "each case is one archive stored with one compressor, level and stream layout; iteration, plain iteration and extraction are compared with the raw archive; or a package recording no compressor, an unknown compressor or another payload format; distinct by package bytes",
		Assumptions: []string{
			"xz streams use LZMA2 only and no stream padding, as rpm writes them (the xz library knows no other filters)",
		},
		Require: map[string]int64{"entries compared": 2500, "trees compared": 300, "refused": 300, "far payloads compared": 20},
		Groups: []Group{
			{Name: "layouts", Variants: []string{"cgo", "nocgo"}, N: n(320, 12000), Run: func(t *T, i int) {
				r := t.R
				comp := comps[i%6]
				p := genPkg(r, PkgOpt{MaxFiles: 8, Compressor: comp, Stripped: r.IntN(3) == 0})
				layout := fmt.Sprint((i / 6) % compressLayouts[comp])
				p.Payload = compress(r, comp, p.Archive, (i/6)%compressLayouts[comp])
				if r.IntN(3) == 0 {
					p.Payload, layout = moreLayouts(r, comp, p.Archive, i/6)
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				t.Seen("compressor x layout", comp+" "+layout)
				sameAsRaw(t, comp+" layout "+layout, p, data)
			}},
			{Name: "big-contents", Variants: []string{"cgo", "nocgo", "asan"}, N: n(48, 1500), Run: func(t *T, i int) {
				r := t.R
				comp := comps[i%6]
				if t.Variant == "asan" {
					comp = "zstd"
				}
				p := &Pkg{Name: "big", Digests: DigestCfg{SHA256: "ok"}}
				p.Gen = append(basicTags(r, "big"), strTag(gPayloadCompressor, comp))
				for len(p.Files) == 0 {
					p.Files = genFiles(r, FilesOpt{Max: 6})
				}
				hardContents(r, p.Files, []int{200000, 1500000, 4000000}[r.IntN(3)])
				p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{})...)
				p.Archive, _ = archiveOf(r, p.Files, r.IntN(2) == 0, ".", nil)
				var layout string
				if r.IntN(2) == 0 {
					k := r.IntN(compressLayouts[comp])
					p.Payload, layout = compress(r, comp, p.Archive, k), fmt.Sprint(k)
				} else {
					p.Payload, layout = moreLayouts(r, comp, p.Archive, i)
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				t.Seen("compressor x layout", "big "+comp+" "+layout)
				t.Event("archive bytes of big contents", len(p.Archive))
				sameAsRaw(t, comp+" layout "+layout, p, data)
			}},
			{Name: "far", Variants: []string{"cgo", "nocgo"}, N: n(12, 120), Run: func(t *T, i int) {
				// hundreds of megabytes that repeat after long distances
				r := t.R
				comp := comps[i%6]
				size := map[string]int64{"gzip": 70 << 20, "zstd": 140 << 20, "xz": 34 << 20, "lzma": 18 << 20, "bzip2": 12 << 20, "uncompressed": 140 << 20}[comp]
				if i >= 12 {
					size *= 4
				}
				size += int64(r.IntN(1000))
				period := []int64{1 << 20, 9<<20 + 5, 17<<20 + 1}[r.IntN(3)]
				head := make([]byte, period)
				for k := range head {
					head[k] = byte(r.Uint32())
				}
				content := make([]byte, 0, size)
				for int64(len(content)) < size {
					content = append(content, head[:min(period, size-int64(len(content)))]...)
					content[len(content)-1-r.IntN(1000)] ^= 1
				}
				tail := []byte("the last file")
				files := []*File{
					{Path: "/a/first", Dir: "/a/", Base: "first", Mode: mReg | 0o644, Nlink: 1, Dev: 1, Ino: 1, Content: []byte("1"), HSize: 1},
					{Path: "/a/big", Dir: "/a/", Base: "big", Mode: mReg | 0o644, Nlink: 1, Dev: 1, Ino: 2, Content: content, HSize: uint64(size)},
					{Path: "/a/last", Dir: "/a/", Base: "last", Mode: mReg | 0o644, Nlink: 1, Dev: 1, Ino: 3, Content: tail, HSize: uint64(len(tail))},
				}
				p := &Pkg{Name: "far", Digests: DigestCfg{SHA256: "ok"}, Files: files}
				p.Gen = append(basicTags(r, "far"), strTag(gPayloadCompressor, comp))
				p.Gen = append(p.Gen, fileTags(r, files, FileTagOpt{})...)
				p.Archive, _ = archiveOf(r, files, r.IntN(2) == 0, ".", nil)
				p.Payload = p.Archive
				layout := "plain"
				if comp != "uncompressed" {
					args := map[string][][]string{"gzip": {{"gzip", "-1c"}}, "bzip2": {{"bzip2", "-1c"}, {"bzip2", "-9c"}}, "xz": {{"xz", "-0c"}, {"xz", "-9c", "-T4"}, {"xz", "-0c", "--lzma2=preset=0,dict=64MiB"}},
						"lzma": {{"xz", "--format=lzma", "-0c"}, {"xz", "--format=lzma", "-c", "--lzma1=preset=0,dict=32MiB"}}, "zstd": {{"zstd", "-3c"}, {"zstd", "-1c", "--long=25"}}}[comp]
					a := args[r.IntN(len(args))]
					out, ok := tool(p.Archive, a[0], a[1:]...)
					if !ok {
						t.Trivial()
						return
					}
					p.Payload, layout = out, fmt.Sprint(a)
				}
				p.Finish(r)
				what := fmt.Sprintf("%s of %d bytes that repeat after %d", layout, size, period)
				t.Sig(what)
				t.Note("%s", what)
				t.Seen("compressor x layout", "far "+comp+" "+layout)
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.Bytes()))
				if err != nil {
					t.Fatalf("%s: ReadRpm: %v", what, err)
				}
				pr, err := rpm.PayloadReaderExtended()
				if err != nil {
					t.Fatalf("%s: PayloadReaderExtended: %v", what, err)
				}
				for _, f := range files {
					if _, err := pr.Next(); err != nil {
						t.Fatalf("%s: %s: %v", what, f.Path, err)
					}
					buf := make([]byte, []int{4096, 100000, 1 << 20}[r.IntN(3)])
					k := 0
					for {
						c, err := pr.Read(buf)
						if k+c > len(f.Content) || !bytes.Equal(buf[:c], f.Content[k:k+c]) {
							t.Fatalf("%s: %s differs within the %d bytes from %d", what, f.Path, c, k)
						}
						k += c
						if err == io.EOF {
							break
						} else if err != nil {
							t.Fatalf("%s: %s: after %d of %d bytes: %v", what, f.Path, k, len(f.Content), err)
						}
					}
					if k != len(f.Content) {
						t.Errorf("%s: %s has %d bytes of %d", what, f.Path, k, len(f.Content))
					}
					t.Event("entries compared")
				}
				if _, err := pr.Next(); err != io.EOF {
					t.Errorf("%s: at the end: %v", what, err)
				}
				t.Event("far payloads compared")
			}},
			{Name: "not-recorded", N: n(200, 6000), Run: func(t *T, i int) {
				r := t.R
				comp := []string{"gzip", "uncompressed", "gzip", "uncompressed", "xz", "bzip2", "zstd", "lzma"}[i%8]
				p := genPkg(r, PkgOpt{MaxFiles: 8, Compressor: comp, NoCompTag: true, Stripped: r.IntN(3) == 0})
				if comp == "gzip" {
					p.Payload = compress(r, comp, p.Archive, r.IntN(12))
				}
				p.Gen = dropTags(p.Gen, gPayloadCompressor)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				if comp == "gzip" || comp == "uncompressed" {
					sameAsRaw(t, "no compressor recorded, "+comp, p, data)
					return
				}
				// read as is, this is no archive
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
				t.must(err)
				if cr, err := rpm.PayloadReader(); err == nil {
					if _, err := cr.Next(); err == nil || err == io.EOF {
						t.Errorf("a %s payload without recorded compressor reads as an archive: %v", comp, err)
					}
				}
				t.Event("refused")
			}},
			{Name: "unknown", N: n(240, 6000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{MaxFiles: 4, Compressor: []string{"gzip", "uncompressed", "xz", "zstd"}[r.IntN(4)]})
				p.Gen = dropTags(p.Gen, gPayloadFormat)
				var what string
				bad := []string{"brotli", "lz4", "zip", "compress", "GZIP", "gzi", "gzipx", "xzz", "zst", "lzma2", "bzip", "bzip3", "none", "Uncompressed", "7z", "zstd1"}
				switch i % 4 {
				case 0, 1:
					name := bad[r.IntN(len(bad))]
					what = "compressor " + name
					p.Gen = append(dropTags(p.Gen, gPayloadCompressor), strTag(gPayloadCompressor, name))
				case 2:
					name := []string{"tar", "ustar", "drpm", "CPIO", "cpi", "cpioo", "zip", "xar"}[r.IntN(8)]
					what = "format " + name
					p.Gen = append(p.Gen, strTag(gPayloadFormat, name))
				case 3: // not a string at all
					if r.IntN(2) == 0 {
						what = "format of type int32"
						p.Gen = append(p.Gen, i32(gPayloadFormat, 1))
					} else {
						what = "compressor of type int32"
						p.Gen = append(dropTags(p.Gen, gPayloadCompressor), i32(gPayloadCompressor, 1))
					}
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				for k := 0; k < 3; k++ {
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
					t.must(err)
					switch k {
					case 0:
						_, err = rpm.PayloadReader()
					case 1:
						_, err = rpm.PayloadReaderExtended()
					case 2:
						err = rpm.ExpandPayload(filepath.Join(t.Dir(), "x"))
					}
					if err == nil {
						t.Errorf("a package with %s is accepted by %s", what, []string{"PayloadReader", "PayloadReaderExtended", "ExpandPayload"}[k])
					}
					t.Event("refused")
				}
				t.Seen("unknown", what)
			}},
			{Name: "fixtures", Variants: []string{"cgo", "nocgo"}, N: func(string) int { return 6 }, Run: func(t *T, i int) {
				// real packages holding the same content
				ref := ""
				for k, name := range []string{"w.ufdio", "w3.zstdio", "w6.lzdio", "w6.xzdio", "w9.bzdio", "w9.gzdio"} {
					if k != 0 && k != i {
						continue
					}
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(fixture("payload-test-0.1-" + name + ".x86_64.rpm")))
					if err != nil {
						t.Fatalf("%s: %v", name, err)
					}
					pr, err := rpm.PayloadReaderExtended()
					if err != nil {
						t.Fatalf("%s: %v", name, err)
					}
					files, err := drainExtended(pr, 4096, readAllPlan)
					if err != nil {
						t.Fatalf("%s: %v", name, err)
					}
					got := ""
					for _, f := range files {
						got += fmt.Sprintf("%s %s %d;", f.info.Name(), sum(f.content), f.n)
					}
					if k == 0 {
						ref = got
					} else if got != ref {
						t.Errorf("%s: %s instead of %s", name, got, ref)
					}
				}
			}},
		},
	})
}
