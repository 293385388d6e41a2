package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C05: identity and file list mirror the metadata.

func eqFile(f rpmutils.FileInfo, m *File, noDev bool) string {
	dev, ino := int(m.Dev), int(m.Ino)
	if noDev {
		dev, ino = 0, 0
	}
	for _, x := range []struct {
		what      string
		got, want any
	}{
		{"name", f.Name(), m.Path}, {"size", f.Size(), int64(m.HSize)}, {"user", f.UserName(), m.User}, {"group", f.GroupName(), m.Group},
		{"flags", f.Flags(), int(m.Flags)}, {"mtime", f.Mtime(), int(m.Mtime)}, {"digest", f.Digest(), m.Digest}, {"mode", f.Mode(), m.Mode},
		{"linkname", f.Linkname(), m.Link}, {"device", f.Device(), dev}, {"inode", f.Inode(), ino},
	} {
		if x.got != x.want {
			return fmt.Sprintf("%s of %q is %v, stored %v", x.what, m.Path, x.got, x.want)
		}
	}
	return ""
}

func checkFiles(t *T, files []rpmutils.FileInfo, model []*File, noDev bool) {
	if len(files) != len(model) {
		t.Errorf("%d files listed, %d stored", len(files), len(model))
		return
	}
	for i, m := range model {
		if msg := eqFile(files[i], m, noDev); msg != "" {
			t.Errorf("file %d: %s", i, msg)
		}
		t.Event("file records compared")
	}
}

// randomize attributes that nothing depends on
func wildAttributes(r *rand.Rand, files []*File) {
	for _, f := range files {
		if r.IntN(3) == 0 {
			f.HSize = randU64(r) >> 1
		}
		if r.IntN(3) == 0 {
			f.User, f.Group = randStr(r), randStr(r)
		}
		if r.IntN(3) == 0 {
			f.Digest = randStr(r)
		}
		if r.IntN(3) == 0 {
			f.Link = randStr(r)
		}
		if r.IntN(3) == 0 {
			f.Dev, f.Ino = uint32(randU64(r)), uint32(randU64(r))
		}
		if r.IntN(3) == 0 {
			f.Flags, f.Mtime = uint32(randU64(r)), uint32(randU64(r))
		}
		if r.IntN(3) == 0 {
			f.Mode = int(uint16(randU64(r)))
		}
	}
}

// fileArrays are the arrays that must describe every file.
var fileArrays = []int{gOldFilenames, gBasenames, gDirIndexes, gFileSizes, gLongFileSizes, gFileModes, gFileMtimes, gFileDigests, gFileLinktos, gFileFlags, gFileUser, gFileGroup, gFileDevices, gFileInodes}

// shorten drops the last k values of an array tag.
func shorten(h HTag, k int) HTag {
	keep := max(h.Count-k, 0)
	switch v := h.Val.(type) {
	case []string:
		return strArr(h.Tag, v[:keep]...)
	case []uint32:
		return i32(h.Tag, v[:keep]...)
	case []uint16:
		return i16(h.Tag, v[:keep]...)
	case []uint64:
		return i64(h.Tag, v[:keep]...)
	case []uint8:
		return i8(h.Tag, v[:keep]...)
	}
	panic(internalError{"shorten"})
}

// narrow stores integer arrays in a smaller type if all values fit.
func narrow(r *rand.Rand, tags []HTag) {
	for i, h := range tags {
		if !isIntType(h.Type) || h.Tag < 1027 || h.Tag > 1116 || r.IntN(3) > 0 {
			continue
		}
		var top uint64
		vals := intsOf(&h)
		for _, v := range vals {
			top = max(top, v)
		}
		switch {
		case top < 256 && r.IntN(2) == 0:
			tags[i] = intTag(r, h.Tag, tInt8, vals)
		case top < 65536:
			tags[i] = intTag(r, h.Tag, []int{tInt16, tInt32}[r.IntN(2)], vals)
		}
	}
}

func filePkg(r *rand.Rand, maxFiles int) (*Pkg, FileTagOpt) {
	p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}, Source: r.IntN(5) == 0}
	p.Gen = basicTags(r, p.Name)
	p.Files = genFiles(r, FilesOpt{Max: maxFiles, Ghosts: true, Special: true, Links: true, Source: p.Source})
	wildAttributes(r, p.Files)
	o := FileTagOpt{OldNames: r.IntN(4) == 0, Long: r.IntN(2) == 0, NoDevIno: r.IntN(5) == 0, ModeWidth: []int{16, 16, 32}[r.IntN(3)],
		NoSlash: r.IntN(4) == 0, MoreDirs: r.IntN(4) == 0}
	o.BothSizes = o.Long && r.IntN(3) == 0
	if !o.Long {
		for _, f := range p.Files {
			f.HSize &= 0xffffffff
		}
	}
	tags := fileTags(r, p.Files, o)
	narrow(r, tags)
	p.Gen = append(p.Gen, tags...)
	p.SigOpt, p.GenOpt = randHOpt(r, 62), randHOpt(r, 63)
	return p, o
}

func init() {
	register(&Check{
		ID:   "C05",
		Rule: "each case is a package with random identity tags, or a random file list stored with random array widths, name styles and optional arrays, or such a list made inconsistent in one way; compared with the builder's model; distinct by package bytes",
		Assumptions: []string{
			"stored directory and base names are clean paths (path joining of unclean names is not specified)",
			"identity tags hold exactly one value",
		},
		Require: map[string]int64{"file records compared": 10000, "inconsistent lists refused": 1000, "identities compared": 1000, "lists of many files": 8},
		Groups: []Group{
			{Name: "identity", N: n(20000, 200000), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "i"}
				ids := map[int]string{}
				missing := 0
				for _, tag := range []int{gName, gVersion, gRelease, gArch} {
					if r.IntN(25) == 0 {
						missing++
						if r.IntN(2) == 0 { // present with no value, or not a string
							if r.IntN(2) == 0 {
								p.Gen = append(p.Gen, strArr(tag))
							} else {
								p.Gen = append(p.Gen, i32(tag, 5))
							}
						}
						continue
					}
					s := randStr(r)
					ids[tag] = s
					h := strTag(tag, s)
					if r.IntN(6) == 0 {
						h = strArr(tag, s)
					}
					p.Gen = append(p.Gen, h)
				}
				epoch, epochBad := "0", false
				switch r.IntN(5) {
				case 0:
				case 1, 2:
					v := randU64(r)
					typ := []int{tInt8, tInt16, tInt32, tInt64}[r.IntN(4)]
					h := intTag(r, gEpoch, typ, []uint64{v})
					epoch = fmt.Sprint(intsOf(&h)[0])
					p.Gen = append(p.Gen, h)
				case 3:
					v := r.IntN(20)
					epoch = fmt.Sprint(v)
					p.Gen = append(p.Gen, i32(gEpoch, uint32(v)))
				case 4:
					if r.IntN(3) == 0 {
						epochBad = true
						p.Gen = append(p.Gen, strTag(gEpoch, "3"))
					}
				}
				// the same numbers in the signature header are something else
				if r.IntN(2) == 0 {
					p.Sig = append(p.Sig, strTag(gName, "decoy"), strTag(gVersion, "decoy"), i32(gEpoch, 77), strTag(gArch, "decoy"), strTag(gRelease, "decoy"))
				}
				p.SigOpt, p.GenOpt = randHOpt(r, 62), randHOpt(r, 63)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				nv, err := hdr.GetNEVRA()
				if missing > 0 || epochBad {
					if err == nil {
						t.Errorf("GetNEVRA = %v although %d tags are unusable (epoch bad: %v)", nv, missing, epochBad)
					}
					t.Event("identities refused")
					return
				}
				if err != nil {
					t.Fatalf("GetNEVRA: %v", err)
				}
				t.Event("identities compared")
				want := rpmutils.NEVRA{Name: ids[gName], Epoch: epoch, Version: ids[gVersion], Release: ids[gRelease], Arch: ids[gArch]}
				if *nv != want {
					t.Errorf("GetNEVRA = %q, stored %q", *nv, want)
				}
				if s, w := nv.String(), want.Name+"-"+epoch+":"+want.Version+"-"+want.Release+"."+want.Arch+".rpm"; s != w {
					t.Errorf("String() = %q, want %q", s, w)
				}
				if i < 2 {
					t.Sample(want)
				}
			}},
			{Name: "file-lists", N: n(12500, 150000), Run: func(t *T, i int) {
				r := t.R
				p, o := filePkg(r, []int{3, 10, 40}[i%3])
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				files, err := hdr.GetFiles()
				if err != nil {
					t.Fatalf("GetFiles: %v (%+v)", err, o)
				}
				t.Event("file lists compared")
				t.Seen("list styles", fmt.Sprintf("%+v", o))
				checkFiles(t, files, p.Files, o.NoDevIno)
				if len(p.Files) == 0 {
					return
				}
				var want []string
				for _, f := range p.Files {
					want = append(want, f.Path)
				}
				names, err := hdr.GetStrings(gOldFilenames)
				if err != nil || !eqStrs(names, want) {
					t.Errorf("GetStrings(OLDFILENAMES) = %q, %v; stored %q", names, err, want)
				}
				g, err := hdr.Get(gOldFilenames)
				if gs, ok := g.([]string); err != nil || !ok || !eqStrs(gs, want) {
					t.Errorf("Get(OLDFILENAMES) = %v, %v; stored %q", g, err, want)
				}
				if i < 6 {
					t.Sample(map[string]any{"files": strings.Join(want[:min(4, len(want))], " "), "count": len(want), "options": fmt.Sprintf("%+v", o)})
				}
			}},
			{Name: "many files", N: n(8, 60), Run: func(t *T, i int) {
				r := t.R
				k := []int{600, 5000, 20000, 70000}[i%4]
				k += r.IntN(k / 4)
				p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}}
				p.Gen = basicTags(r, p.Name)
				p.Files = bulkFiles(r, k)
				wildAttributes(r, p.Files)
				if i/4%2 == 0 { // each in a directory of its own
					for j, f := range p.Files {
						f.Dir = fmt.Sprintf("/%d/%d/", j%3, j)
						f.Path = f.Dir + f.Base
					}
				}
				o := FileTagOpt{OldNames: i%8 == 5, Long: true, MoreDirs: r.IntN(2) == 0, ModeWidth: 16}
				p.Gen = append(p.Gen, fileTags(r, p.Files, o)...)
				p.Finish(r)
				t.Sig(p.Bytes())
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(p.Bytes()))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				files, err := hdr.GetFiles()
				if err != nil {
					t.Fatalf("GetFiles of %d files: %v (%+v)", k, err, o)
				}
				checkFiles(t, files, p.Files, false)
				t.Event("lists of many files")
			}},
			{Name: "inconsistent-lists", N: n(15000, 150000), Run: func(t *T, i int) {
				r := t.R
				var p *Pkg
				var o FileTagOpt
				for {
					p, o = filePkg(r, 6)
					if len(p.Files) > 0 {
						break
					}
				}
				kind := i % 5
				switch kind {
				case 0, 1: // one array too short or of a wrong kind
					var present []int
					for _, tag := range fileArrays {
						if findTag(p.Gen, tag) != nil && tag != gBasenames && tag != gOldFilenames && !(tag == gFileSizes && o.Long) {
							present = append(present, tag)
						}
					}
					tag := present[r.IntN(len(present))]
					h := findTag(p.Gen, tag)
					if kind == 0 {
						*h = shorten(*h, 1+r.IntN(h.Count))
					} else if isIntType(h.Type) {
						*h = strArr(tag, make([]string, h.Count)...)
					} else {
						*h = i32(tag, make([]uint32, h.Count)...)
					}
					t.Note("tag %d, kind %d", tag, kind)
				case 2: // index out of range
					h := findTag(p.Gen, gDirIndexes)
					if h == nil {
						t.Trivial()
						return
					}
					d := findTag(p.Gen, gDirnames)
					v := intsOf(h)
					bad := []uint64{uint64(d.Count), uint64(d.Count) + 1, 0x7fffffff, 0x80000000, 0xffffffff}[r.IntN(5)]
					v[r.IntN(len(v))] = bad
					*h = intTag(r, gDirIndexes, tInt32, v)
					t.Note("bad directory index %d of %d", bad, d.Count)
				case 3: // a mandatory array is missing
					var present []int
					for _, tag := range append([]int{gDirnames}, fileArrays...) {
						if findTag(p.Gen, tag) != nil && tag != gFileDevices && tag != gFileInodes && tag != gBasenames && tag != gOldFilenames && !(tag == gFileSizes && o.Long) && !(tag == gLongFileSizes && o.BothSizes) {
							present = append(present, tag)
						}
					}
					tag := present[r.IntN(len(present))]
					p.Gen = dropTags(p.Gen, tag)
					t.Note("tag %d missing", tag)
				case 4: // fewer directories than used
					h := findTag(p.Gen, gDirnames)
					if h == nil {
						t.Trivial()
						return
					}
					*h = shorten(*h, 1)
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				files, err := hdr.GetFiles()
				if err == nil {
					var l []string
					for _, f := range files {
						l = append(l, fmt.Sprintf("%q size %d %q %q mode %o", f.Name(), f.Size(), f.UserName(), f.Digest(), f.Mode()))
					}
					t.Errorf("GetFiles succeeded on inconsistent arrays (kind %d, %+v): %s", kind, o, strings.Join(l, "; "))
				}
				t.Event("inconsistent lists refused")
			}},
			{Name: "digest-algorithms", N: n(1, 1), Run: func(t *T, i int) {
				names := map[int]string{1: "md5", 2: "sha1", 3: "rmd160", 5: "md2", 6: "tgr192", 7: "haval5160", 8: "sha256", 9: "sha384", 10: "sha512", 11: "sha224"}
				for k := -300; k < 3000; k++ {
					want := names[k]
					if want == "" {
						want = "md5"
					}
					if got := rpmutils.GetFileAlgoName(k); got != want {
						t.Errorf("GetFileAlgoName(%d) = %q, not %q", k, got, want)
					}
					t.Event("digest algorithm names")
				}
				t.Sig("algorithms")
			}},
			{Name: "no-files", N: n(50, 1000), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "n", Digests: DigestCfg{SHA1: "ok"}}
				p.Gen = basicTags(r, p.Name)
				p.GenOpt = randHOpt(r, 63)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				files, err := hdr.GetFiles()
				if err != nil || len(files) != 0 {
					t.Errorf("GetFiles of a package without files = %v, %v", files, err)
				}
				t.Event("file lists compared")
			}},
		},
	})
}
