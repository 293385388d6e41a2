package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C15: extraction never touches anything outside the destination. Every
// escape the generated archives attempt leads into the case's own directory.

// yard is a directory with a destination in it and things around it.
type yard struct {
	base   string // everything
	dest   string // the real destination directory
	spell  string // how it is named to the library
	cwd    string
	kind   string
	before map[string]node
	made   bool // the destination existed before
	loose  bool // contents only: links into the destination may be removed
}

func newYard(t *T, r *rand.Rand) *yard {
	base := t.Dir()
	y := &yard{base: base, cwd: base, made: true}
	must := t.must
	must(os.MkdirAll(filepath.Join(base, "p", "q"), 0o755))
	must(os.MkdirAll(filepath.Join(base, "outside", "sub"), 0o755))
	for _, f := range []string{"outside/file", "outside/sub/file", "outside/a", "p/file", "p/a", "p/q/file", "p/q/a", "file"} {
		must(os.WriteFile(filepath.Join(base, f), []byte("precious "+f), 0o644))
	}
	must(os.Symlink("file", filepath.Join(base, "outside", "link")))
	must(os.Mkdir(filepath.Join(base, "p", "q", "dest-evil"), 0o755))
	must(os.Mkdir(filepath.Join(base, "p", "q", "empty"), 0o755))
	must(os.Mkdir(filepath.Join(base, "outside", "empty"), 0o777))
	y.dest = filepath.Join(base, "p", "q", "dest")
	kinds := []string{"absolute", "relative", "dot", "trailing slash", "symlink", "through a symlinked parent", "not yet there", "not yet there, nested", "with .."}
	y.kind = kinds[r.IntN(len(kinds))]
	y.spell = y.dest
	switch y.kind {
	case "relative":
		y.spell = "p/q/dest"
	case "dot":
		y.spell, y.cwd = ".", y.dest
	case "trailing slash":
		y.spell += "/"
	case "symlink":
		y.spell = filepath.Join(base, "p", "alias")
		must(os.Symlink("q/dest", y.spell))
	case "through a symlinked parent":
		must(os.Symlink("p/q", filepath.Join(base, "alias")))
		y.spell = "alias/dest"
	case "not yet there":
		y.made = false
	case "not yet there, nested":
		y.made = false
		y.dest = filepath.Join(base, "p", "q", "new", "dest")
		y.spell = y.dest
	case "with ..":
		y.spell = filepath.Join(base, "outside") + "/../p/q/dest"
	}
	if y.made {
		must(os.MkdirAll(y.dest, 0o755))
	}
	return y
}

func (y *yard) outside() (map[string]node, error) {
	out := map[string]node{}
	err := filepath.Walk(y.base, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if p == y.dest {
			return filepath.SkipDir
		}
		n, err := oneNode(p, info)
		rel, _ := filepath.Rel(y.base, p)
		out[rel] = n
		return err
	})
	return out, err
}

func oneNode(p string, info os.FileInfo) (node, error) {
	st := info.Sys().(*syscall.Stat_t)
	n := node{Perm: info.Mode(), Dev: st.Dev, Ino: st.Ino, Nlink: uint64(st.Nlink), Mtime: info.ModTime(), Ctime: st.Ctim.Nano(), Kind: "other"}
	switch {
	case info.IsDir():
		n.Kind = "dir"
	case info.Mode().IsRegular():
		n.Kind = "reg"
		b, err := os.ReadFile(p)
		if err != nil {
			return n, err
		}
		n.Data = string(b)
	case info.Mode()&os.ModeSymlink != 0:
		n.Kind = "link"
		var err error
		if n.Data, err = os.Readlink(p); err != nil {
			return n, err
		}
	}
	return n, nil
}

// compare reports everything outside the destination that is not as before.
func (y *yard) compare(t *T, what string) {
	after, err := y.outside()
	t.must(err)
	var names []string
	for p := range y.before {
		names = append(names, p)
	}
	for p := range after {
		if _, ok := y.before[p]; !ok {
			names = append(names, p)
		}
	}
	sort.Strings(names)
	onWay := map[string]bool{}
	if !y.made {
		rel, _ := filepath.Rel(y.base, y.dest)
		for q := path.Dir(rel); q != "."; q = path.Dir(q) {
			onWay[q] = true
		}
		onWay["."] = true
	}
	for _, p := range names {
		a, okA := y.before[p]
		b, okB := after[p]
		switch {
		case !okA && onWay[p] && b.Kind == "dir":
		case !okA:
			t.Errorf("%s: %q (%s) was created outside the destination", what, p, b.Kind)
		case !okB:
			t.Errorf("%s: %q (%s) outside the destination is gone", what, p, a.Kind)
		case a.Kind != b.Kind || a.Ino != b.Ino || a.Data != b.Data || a.Perm != b.Perm:
			t.Errorf("%s: %q outside the destination changed from %s %v %q to %s %v %q", what, p, a.Kind, a.Perm, a.Data, b.Kind, b.Perm, clip(b.Data, 60))
		case y.loose || onWay[p]:
		case a.Nlink != b.Nlink:
			t.Errorf("%s: %q outside the destination has %d links instead of %d", what, p, b.Nlink, a.Nlink)
		case !a.Mtime.Equal(b.Mtime) || a.Ctime != b.Ctime:
			t.Errorf("%s: %q (%s) outside the destination was touched", what, p, a.Kind)
		}
	}
	t.Event("objects outside watched", len(names))
}

// escape is a name which, taken literally from dir (inside the destination),
// leads to a place outside of it but within the yard.
func (y *yard) escape(r *rand.Rand, dir string) string {
	to := filepath.Join(y.base, []string{"outside", "outside/file", "outside/new", "outside/sub", "outside/sub/file", "outside/empty", "p", "p/file", "p/new", "p/q", "p/q/file", "p/q/a", "p/q/new", "p/q/dest-evil", "p/q/dest-evil/x", "p/q/destx", "file", "new", "outside/link"}[r.IntN(19)])
	switch r.IntN(4) {
	case 0:
		return to // absolute
	case 1: // more ".." than there are levels
		return strings.Repeat("../", 40) + to[1:]
	}
	rel, err := filepath.Rel(filepath.Join(y.dest, dir), to)
	check(err)
	return rel
}

func (y *yard) hostileName(r *rand.Rand) string {
	comp := []string{"a", "b", "l", "d"}
	parts := []string{}
	for k := 1 + r.IntN(3); k > 0; k-- {
		parts = append(parts, comp[r.IntN(len(comp))])
	}
	n := strings.Join(parts, "/")
	switch r.IntN(9) {
	case 0:
		n = y.escape(r, "")
	case 1: // escape after some components
		n = n + "/" + y.escape(r, n)
	case 2: // ".." that end inside or not
		n = n + "/" + strings.Repeat("../", 1+r.IntN(len(parts)+3)) + comp[r.IntN(4)]
	case 3:
		n = strings.Repeat("../", r.IntN(3)) + n
	}
	if r.IntN(5) == 0 {
		n = "./" + n
	}
	if r.IntN(8) == 0 {
		n = "/" + n
	}
	if r.IntN(8) == 0 {
		n = strings.Replace(n, "/", []string{"//", "/./", "///"}[r.IntN(3)], 1)
	}
	if r.IntN(10) == 0 {
		n += []string{"/", "/.", "/..", "/../.."}[r.IntN(4)]
	}
	if r.IntN(60) == 0 {
		n = []string{"..", ".", "", "/", "../", "./..", "../..", "a/..", "/.."}[r.IntN(9)]
	}
	return n
}

func (y *yard) linkTarget(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return []string{".", "..", "../..", "../../..", "a", "b", "l", "d", "l/..", "./l", "a/../..", "../../p", "/", ""}[r.IntN(13)]
	case 1: // by way of the destination's own name
		return []string{y.dest, y.dest + "/../" + "file", "../dest/..", "../dest-evil", y.spell}[r.IntN(5)]
	}
	return y.escape(r, []string{"", "a", "b", "a/b", "d"}[r.IntN(5)])
}

func (y *yard) hostileEnts(r *rand.Rand, k int) []*cpioEnt {
	var ents []*cpioEnt
	for ; k > 0; k-- {
		n := y.hostileName(r)
		if len(ents) > 0 {
			switch r.IntN(5) {
			case 0: // the same name again
				n = ents[r.IntN(len(ents))].Name
			case 1: // through an earlier one
				n = ents[r.IntN(len(ents))].Name + "/" + []string{"a", "file", "new", "sub/file", "b/c", ".."}[r.IntN(6)]
			}
		}
		var e *cpioEnt
		switch r.IntN(12) {
		case 0, 1, 2, 3:
			e = newcEnt(n, mLnk|0o777, []byte(y.linkTarget(r)))
			e.Fields[cSize] = uint32(len(e.Data))
		case 4, 5, 6:
			e = newcEnt(n, mReg|0o644, randContent(r, r.IntN(40)))
		case 7:
			e = newcEnt(n, mDir|[]int{0o755, 0o777, 0o700}[r.IntN(3)], nil)
		case 8:
			e = newcEnt(n, []int{mFifo, mFifo, mChr, mBlk}[r.IntN(4)]|0o644, nil)
		default:
			e = newcEnt(n, mReg|0o644, randContent(r, r.IntN(2)*r.IntN(30)))
			e.Fields[cNlink] = 2
			e.Fields[cIno] = uint32(1 + r.IntN(2))
		}
		ents = append(ents, e)
	}
	return ents
}

func entText(ents []*cpioEnt) []string {
	var out []string
	for _, e := range ents {
		s := fmt.Sprintf("%o %s", e.Fields[cMode], e.Name)
		if e.Fields[cMode]&0o170000 == mLnk {
			s += " -> " + string(e.Data)
		} else if e.Fields[cNlink] > 1 {
			s += fmt.Sprintf(" (ino %d, size %d)", e.Fields[cIno], len(e.Data))
		}
		out = append(out, clip(s, 160))
	}
	return out
}

// unpack extracts to the yard's destination by one of the routes.
func (y *yard) unpack(t *T, r *rand.Rand, rd io.Reader, data []byte) (err error) {
	t.inDir(y.cwd, func() {
		if r.IntN(5) > 0 {
			err = cpio.Extract(rd, y.spell)
			return
		}
		p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}}
		p.Gen = append(basicTags(r, "f"), strTag(gPayloadCompressor, "uncompressed"))
		p.Finish(r)
		var rpm *rpmutils.Rpm
		rpm, err = rpmutils.ReadRpm(io.MultiReader(bytes.NewReader(p.Bytes()), rd))
		t.must(err)
		err = rpm.ExpandPayload(y.spell)
	})
	return err
}

func init() {
	register(&Check{
		ID:   "C15",
		Rule: "each case builds a directory holding a destination and other objects, extracts one or several hostile archives (escaping names, symlinks followed by entries through or over them, hard links, cut or failing streams) to it, and compares every object outside the destination (existence, type, inode, contents, permissions, link count, modification and change time) with before; distinct by archives and destination",
		Assumptions: []string{
			"nothing else writes to the destination during extraction",
			"creating the missing directories leading to the destination is part of the request",
		},
		Require: map[string]int64{"objects outside watched": 200000, "extractions that succeed": 1500, "extractions that fail": 3000, "symlinks leading out extracted": 800},
		Groups: []Group{
			{Name: "hostile", N: n(14000, 600000), Run: func(t *T, i int) {
				r := t.R
				y := newYard(t, r)
				if y.made && r.IntN(4) == 0 { // something is there already
					t.must(os.MkdirAll(filepath.Join(y.dest, "a"), 0o755))
					t.must(os.WriteFile(filepath.Join(y.dest, "b"), []byte("old"), 0o644))
				}
				var err error
				y.before, err = y.outside()
				t.must(err)
				steps := 1
				if r.IntN(4) == 0 {
					steps = 2 + r.IntN(2)
				}
				for s := 0; s < steps; s++ {
					ents := y.hostileEnts(r, 1+r.IntN(6))
					data, _, _ := buildCpio(ents, 0)
					var rd io.Reader = bytes.NewReader(data)
					cut := ""
					if r.IntN(6) == 0 {
						k := r.IntN(len(data))
						cut = fmt.Sprintf(" cut at %d", k)
						rd = cutReader(r, data, k, r.IntN(2) == 0)
					}
					t.Sig(strings.Join(entText(ents), "\n"), y.kind, cut)
					err := y.unpack(t, r, rd, data)
					t.Note("archive%s into %q: %v", cut, y.kind, entText(ents))
					t.Note("-> %v", err)
					if err == nil {
						t.Event("extractions that succeed")
					} else {
						t.Event("extractions that fail")
					}
					if i < 3 && s == 0 {
						t.Sample(map[string]any{"entries": entText(ents), "destination": y.kind, "error": fmt.Sprint(err)})
					}
				}
				y.compare(t, "extraction")
				countOutLinks(t, y)
			}},
			{Name: "patterns", N: n(4000, 150000), Run: func(t *T, i int) {
				// known ways out, varied
				r := t.R
				y := newYard(t, r)
				var err error
				y.before, err = y.outside()
				t.must(err)
				outDir := func() string {
					return []string{filepath.Join(y.base, "outside"), filepath.Join(y.base, "outside/empty"), filepath.Join(y.base, "p/q/empty"), y.dest + "-evil", filepath.Join(y.base, "p")}[r.IntN(5)]
				}
				relTo := func(from, to string) string {
					s, err := filepath.Rel(filepath.Join(y.dest, from), to)
					check(err)
					return s
				}
				link := func(n, to string) *cpioEnt { return newcEnt(n, mLnk|0o777, []byte(to)) }
				file := func(n string) *cpioEnt { return newcEnt(n, mReg|0o644, []byte("evil")) }
				dir := func(n string) *cpioEnt { return newcEnt(n, mDir|0o755, nil) }
				hard := func(n string, ino int, data string) *cpioEnt {
					e := newcEnt(n, mReg|0o644, []byte(data))
					e.Fields[cNlink], e.Fields[cIno] = 2, uint32(ino)
					return e
				}
				to := outDir()
				if r.IntN(2) == 0 {
					to = relTo("", to)
				}
				victim := filepath.Join(y.base, []string{"outside/file", "p/file", "file", "outside/new", "outside/sub/file"}[r.IntN(5)])
				rv := victim
				if r.IntN(2) == 0 {
					rv = relTo("", victim)
				}
				leaf := []string{"file", "new", "sub/file", "x/y/z", "a"}[r.IntN(5)]
				var leafEnt *cpioEnt
				mk := func(n string) *cpioEnt {
					switch r.IntN(5) {
					case 0:
						return dir(n)
					case 1:
						return link(n, "anything")
					case 2:
						return newcEnt(n, mFifo|0o644, nil)
					case 3:
						return newcEnt(n, mChr|0o644, nil)
					}
					return file(n)
				}
				var ents []*cpioEnt
				k := r.IntN(14)
				switch k {
				case 0: // symlink to a directory outside, then through it
					leafEnt = mk("l/" + leaf)
					ents = []*cpioEnt{link("l", to), leafEnt}
				case 1: // chain of symlinks
					ents = []*cpioEnt{link("l1", to), link("l2", "l1"), link("l3", "./l2"), mk("l3/" + leaf)}
				case 2: // symlink in a subdirectory
					ents = []*cpioEnt{dir("d"), link("d/l", relTo("d", outDir())), mk("d/l/" + leaf)}
				case 3: // symlink to a file outside, then written as a file
					ents = []*cpioEnt{link("f", rv), file("f")}
				case 4: // the same with hard links: group written over a symlink
					ents = []*cpioEnt{link("f", rv), hard("g", 1, ""), hard("f", 1, "evil")}
				case 5: // content written over the name of a member
					ents = []*cpioEnt{link("f", rv), hard("f", 1, ""), hard("g", 1, "evil")}
				case 6: // empty group
					ents = []*cpioEnt{link("f", rv), hard("f", 1, ""), hard("g", 1, "")}
				case 7: // linked to a symlink first, written afterwards
					ents = []*cpioEnt{hard("x", 1, ""), hard("f", 1, "good"), link("l", to), hard("l/"+leaf, 2, ""), hard("y", 2, "evil")}
				case 8: // the parent becomes a symlink after the member was noted
					ents = []*cpioEnt{hard("l/"+leaf, 1, ""), link("l", to), hard("y", 1, "evil")}
				case 9: // relative climbing through the symlink
					ents = []*cpioEnt{link("l", []string{".", "..", "../..", "../../.."}[r.IntN(4)]), mk("l/" + leaf), mk("l/l/" + leaf), mk("l/../file")}
				case 10: // dangling symlink to be created through
					ents = []*cpioEnt{link("l", filepath.Join(y.base, "outside", "nowhere")), mk("l/" + leaf), mk("l"), dir("l"), mk("l/z")}
				case 11: // absolute symlink back to the destination, and beside it
					ents = []*cpioEnt{link("l", y.dest), mk("l/ok"), link("m", y.dest+"/.."), mk("m/" + leaf), link("n", y.dest+"-evil"), mk("n/" + leaf)}
				case 12: // the destination's own name
					ents = []*cpioEnt{mk("../dest/" + leaf), mk("../dest-evil/" + leaf), mk("../" + "destx"), mk("..dest/x"), link("../dest-evil/l", "x")}
				case 13: // destination itself
					ents = []*cpioEnt{link([]string{".", "./", "", "a/..", ".."}[r.IntN(5)], to), mk("x")}
				}
				if r.IntN(4) == 0 { // in two archives
					cut := 1 + r.IntN(len(ents))
					data, _, _ := buildCpio(ents[:cut], 0)
					err := y.unpack(t, r, bytes.NewReader(data), data)
					t.Note("archive into %q: %v -> %v", y.kind, entText(ents[:cut]), err)
					ents = ents[cut:]
				}
				data, _, _ := buildCpio(ents, 0)
				t.Sig(k, strings.Join(entText(ents), "\n"), y.kind)
				err = y.unpack(t, r, bytes.NewReader(data), data)
				t.Note("archive into %q: %v -> %v", y.kind, entText(ents), err)
				t.Seen("patterns", fmt.Sprintf("%d, success %v", k, err == nil))
				if err == nil {
					t.Event("extractions that succeed")
				} else {
					t.Event("extractions that fail")
				}
				y.compare(t, fmt.Sprintf("pattern %d", k))
				countOutLinks(t, y)
			}},
			{Name: "linked-before", N: n(600, 20000), Run: func(t *T, i int) {
				// files of the destination that are hard links to files outside
				r := t.R
				y := newYard(t, r)
				if !y.made {
					t.must(os.MkdirAll(y.dest, 0o755))
					y.made = true
				}
				y.loose = true
				t.must(os.Link(filepath.Join(y.base, "outside/file"), filepath.Join(y.dest, "a")))
				t.must(os.Link(filepath.Join(y.base, "p/file"), filepath.Join(y.dest, "b")))
				var err error
				y.before, err = y.outside()
				t.must(err)
				var ents []*cpioEnt
				for _, n := range []string{"a", "b"} {
					e := newcEnt(n, mReg|0o644, randContent(r, r.IntN(20)))
					if r.IntN(3) == 0 {
						e.Fields[cNlink] = 2
					}
					ents = append(ents, e)
				}
				ents = append(ents, y.hostileEnts(r, r.IntN(3))...)
				r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
				data, _, _ := buildCpio(ents, 0)
				t.Sig(strings.Join(entText(ents), "\n"), y.kind)
				err = y.unpack(t, r, bytes.NewReader(data), data)
				t.Note("archive into %q: %v -> %v", y.kind, entText(ents), err)
				y.compare(t, "over hard links")
			}},
		},
	})
}

// countOutLinks counts symlinks in the destination that lead out of it: the
// temptations that were really there.
func countOutLinks(t *T, y *yard) {
	_ = filepath.Walk(y.dest, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode()&os.ModeSymlink != 0 {
			if to, err := filepath.EvalSymlinks(p); err == nil && to != y.dest && !strings.HasPrefix(to, y.dest+"/") {
				t.Event("symlinks leading out extracted")
			}
		}
		return nil
	})
}
