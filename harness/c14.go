package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C14: successful extraction reproduces the archive on disk.

// wantNode is what must be at one path of the destination.
type wantNode struct {
	kind     string // dir, reg, link, fifo
	data     string
	perm     os.FileMode
	permSet  bool
	group    int  // hard-link group, 0 for none
	optional bool // directories on the way to skipped devices
}

// diskTree is a tree to be archived: entries in archive order and what they
// must come out as.
type diskTree struct {
	ents []*cpioEnt
	want map[string]*wantNode
}

func (d *diskTree) parents(p string, optional bool) {
	for q := path.Dir(p); q != "."; q = path.Dir(q) {
		w := d.want[q]
		if w == nil {
			d.want[q] = &wantNode{kind: "dir", perm: 0o755, permSet: true, optional: optional}
		} else if !optional {
			w.optional = false
		}
	}
}

// spell gives a path one of its spellings in an archive.
func spell(r *rand.Rand, p string, dir bool) string {
	s := p
	if r.IntN(6) == 0 {
		s = strings.Replace(s, "/", "//", 1+r.IntN(2))
	}
	if r.IntN(8) == 0 {
		s = strings.Replace(s, "/", "/./", 1)
	}
	if r.IntN(10) == 0 { // through a directory that need not exist
		s = "tmp/../" + s
	}
	switch r.IntN(4) {
	case 0, 1:
		s = "./" + s
	case 2:
		s = "/" + s
	}
	if dir && r.IntN(4) == 0 {
		s += "/"
	}
	if s == trailerLike[0] { // would end the archive
		s = "./" + s
	}
	return s
}

var linkTargets = []string{"a", "../x", "/etc/passwd", ".", "..", "/", "a/../b", "//x//", "x y/é\n", "\xff\xfe", strings.Repeat("t/", 900), strings.Repeat("n", 4000), "TRAILER!!!"}

// devIno is what members of a hard-link group have in common.
type devIno struct{ major, minor, ino uint32 }

// alikeIDs gives numbers which some way of putting them together confuses with
// those of a.
func alikeIDs(r *rand.Rand, a devIno) devIno {
	f := [3]*uint32{&a.major, &a.minor, &a.ino}
	r.Shuffle(3, func(i, j int) { f[i], f[j] = f[j], f[i] })
	alikePair(r, f[0], f[1])
	return a
}

func alikePair(r *rand.Rand, x, y *uint32) {
	d, k := uint32(1+r.IntN(3)), []int{1, 4, 8, 12, 16, 20, 24, 31}[r.IntN(8)]
	switch r.IntN(7) {
	case 0: // x<<k ^ y
		*x, *y = *x^d, *y^d<<k
	case 1: // x<<k + y
		*x, *y = *x-d, *y+d<<k
	case 2: // x + y
		*x, *y = *x+d, *y-d
	case 3:
		*x, *y = *y, *x
	case 4, 5: // digits in a row
		n := len(fmt.Sprint(*x))
		s := fmt.Sprint(*x) + fmt.Sprint(*y)
		if n += 1 - 2*r.IntN(2); n > 0 && n < len(s) && s[n] != '0' && n < 9 && len(s)-n < 9 {
			fmt.Sscan(s[:n], x)
			fmt.Sscan(s[n:], y)
		}
	case 6: // lost bits
		*x ^= 1 << (4 * r.IntN(8))
	}
}

// genTree makes a tree. Every directory entry comes before what is in it.
func genTree(r *rand.Rand, size int, special bool) *diskTree {
	d := &diskTree{want: map[string]*wantNode{}}
	type item struct {
		ents []*cpioEnt
	}
	dirs := []string{""}
	ino := uint32(r.IntN(3) - 1) // inodes may start at 0
	dev := [2]uint32{uint32(r.IntN(3)), uint32(r.IntN(3))}
	if r.IntN(3) == 0 {
		dev = [2]uint32{uint32(r.IntN(300)), uint32(r.IntN(300))}
	}
	newName := func() string {
		for {
			n := path.Join(dirs[r.IntN(len(dirs))], randName(r))
			if r.IntN(20) == 0 {
				n = path.Join(path.Dir(n), trailerLike[r.IntN(len(trailerLike))])
			}
			if r.IntN(5) == 0 { // in directories without an entry
				n = path.Join(path.Dir(n), "implied"+fmt.Sprint(r.IntN(3)), path.Base(n))
			}
			if r.IntN(40) == 0 {
				n = path.Join(path.Dir(n), strings.Repeat("L", 150)+path.Base(n))
			}
			if d.want[n] == nil && len(n) < 1000 {
				return n
			}
		}
	}
	used := map[devIno]bool{}
	var groups []devIno
	fix := func(e *cpioEnt) *cpioEnt {
		used[devIno{dev[0], dev[1], ino}] = true
		e.Fields[cIno] = ino
		e.Fields[cDevMaj], e.Fields[cDevMin] = dev[0], dev[1]
		e.Fields[cMtime] = r.Uint32()
		e.Fields[cUid], e.Fields[cGid] = uint32(r.IntN(3)), uint32(r.IntN(3))
		e.UpperHex = r.IntN(2) == 0
		return e
	}
	unused := func() {
		for used[devIno{dev[0], dev[1], ino}] {
			ino++
		}
	}
	var deferred []*cpioEnt // members of open link groups
	group := 0
	if size > 1000 { // deep down
		n := ""
		for j := 60 + r.IntN(180); j > 0; j-- {
			n = path.Join(n, string([]byte{"abcXYZ0"[r.IntN(7)]}))
		}
		dirs = append(dirs, n, n, path.Dir(n))
	}
	perms := []int{0o755, 0o700, 0o777, 0o711, 0o750, 0o1777, 0o2755, 0o6775}
	for k := 0; k < size; k++ {
		n := newName()
		ino++
		if r.IntN(6) == 0 { // another device with the same numbers
			dev = [2]uint32{uint32(r.IntN(3)), uint32(r.IntN(3))}
			if r.IntN(2) == 0 {
				ino += 1000
			}
		}
		unused()
		switch c := r.IntN(14); {
		case c < 4:
			content := randContent(r, randSize(r))
			e := fix(newcEnt(spell(r, n, false), mReg|[]int{0o644, 0o755, 0o400, 0o4755, 0o000}[r.IntN(5)], content))
			d.ents = append(d.ents, e)
			d.parents(n, false)
			d.want[n] = &wantNode{kind: "reg", data: string(content)}
			if r.IntN(10) == 0 { // once more with other content
				content = randContent(r, randSize(r))
				ino++
				unused()
				d.ents = append(d.ents, fix(newcEnt(spell(r, n, false), mReg|0o644, content)))
				d.want[n].data = string(content)
			}
		case c < 7:
			m := perms[r.IntN(len(perms))]
			e := fix(newcEnt(spell(r, n, true), mDir|m, nil))
			e.Fields[cNlink] = uint32(2 + r.IntN(3))
			d.ents = append(d.ents, e)
			d.parents(n, false)
			if r.IntN(4) == 0 { // nobody may write to it, and nothing goes there
				m = []int{0o555, 0, 0o500, 0o111, 0o444, 0o577, 0o1070}[r.IntN(7)]
				e.Fields[cMode] = uint32(mDir | m)
			} else {
				dirs = append(dirs, n)
			}
			d.want[n] = &wantNode{kind: "dir", perm: os.FileMode(m) & 0o777, permSet: true}
			if r.IntN(8) == 0 { // listed again
				d.ents = append(d.ents, fix(newcEnt(spell(r, n, true), mDir|m, nil)))
			}
		case c < 9:
			to := linkTargets[r.IntN(len(linkTargets))]
			d.ents = append(d.ents, fix(newcEnt(spell(r, n, false), mLnk|0o777, []byte(to))))
			d.parents(n, false)
			d.want[n] = &wantNode{kind: "link", data: to}
		case c < 10 && special:
			m := []int{0o644, 0o600, 0o777, 0o000, 0o222}[r.IntN(5)]
			d.ents = append(d.ents, fix(newcEnt(spell(r, n, false), mFifo|m, nil)))
			d.parents(n, false)
			d.want[n] = &wantNode{kind: "fifo", perm: os.FileMode(m), permSet: true}
		case c < 11 && special:
			e := fix(newcEnt(spell(r, n, false), []int{mChr, mBlk}[r.IntN(2)]|0o600, nil))
			e.Fields[cRdevMaj], e.Fields[cRdevMin] = uint32(r.IntN(300)), uint32(r.IntN(300))
			if r.IntN(4) == 0 {
				e.Data = []byte("x")
				e.Fields[cSize] = 1
			}
			d.ents = append(d.ents, e)
			d.parents(n, true)
		default:
			// hard links; the content comes with one member, usually the last
			group++
			k := 2 + r.IntN(3)
			if size > 1000 && group == 1 {
				k = []int{300, 300, 4200}[r.IntN(3)] + r.IntN(700)
			}
			content := randContent(r, 1+r.IntN(3000))
			if r.IntN(4) == 0 {
				content = nil
			}
			// several groups may have the same number, on different devices
			ino0, dev0 := ino, dev
			if len(groups) > 0 && r.IntN(2) == 0 {
				to := groups[r.IntN(len(groups))]
				a := devIno{dev[0], dev[1], to.ino}
				switch r.IntN(3) {
				case 0:
					a = alikeIDs(r, to)
				case 1:
					a.major += uint32(1 + r.IntN(3))
				default:
					a.minor += uint32(1 + r.IntN(3))
				}
				if !used[a] {
					ino, dev = a.ino, [2]uint32{a.major, a.minor}
				}
			}
			groups = append(groups, devIno{dev[0], dev[1], ino})
			full := k - 1
			if r.IntN(5) == 0 && k > 2 {
				full = 1 + r.IntN(k-1) // never the first: rpm does not do that
			}
			for j := 0; j < k; j++ {
				if j > 0 {
					n = newName()
				}
				var data []byte
				if j == full {
					data = content
				}
				e := fix(newcEnt(spell(r, n, false), mReg|0o644, data))
				e.Fields[cNlink] = uint32(k)
				d.parents(n, false)
				d.want[n] = &wantNode{kind: "reg", data: string(content), group: group}
				deferred = append(deferred, e)
			}
			ino, dev = ino0, dev0
			if r.IntN(2) == 0 {
				d.ents = append(d.ents, deferred...)
				deferred = nil
			}
		}
		if len(deferred) > 0 && r.IntN(2) == 0 { // interleave with others
			d.ents = append(d.ents, deferred[0])
			deferred = deferred[1:]
		}
	}
	d.ents = append(d.ents, deferred...)
	if r.IntN(3) == 0 { // the destination itself
		e := fix(newcEnt([]string{".", "./", "/"}[r.IntN(3)], mDir|0o755, nil))
		d.ents = append([]*cpioEnt{e}, d.ents...)
	}
	return d
}

// compareTree checks a destination against what must be there.
func (d *diskTree) compare(t *T, what, dest string, umask os.FileMode, old map[string]node) {
	snap, err := snapshot(dest)
	if !os.IsNotExist(err) { // nothing was to be extracted
		t.must(err)
	}
	groups := map[int]uint64{}
	inoOf := map[uint64]string{}
	for p, w := range d.want {
		n, ok := snap[filepath.FromSlash(p)]
		if !ok {
			if !w.optional {
				t.Errorf("%s: %q (%s) is missing", what, p, w.kind)
			}
			continue
		}
		if n.Kind != w.kind {
			t.Errorf("%s: %q is a %s instead of a %s", what, p, n.Kind, w.kind)
			continue
		}
		if n.Data != w.data {
			t.Errorf("%s: %q (%s) holds %d bytes instead of %d: %s", what, p, w.kind, len(n.Data), len(w.data), diffText(n.Data, w.data))
		}
		if o, existed := old[p]; w.permSet && !existed {
			if n.Perm&0o777 != w.perm&^umask {
				t.Errorf("%s: %q (%s) has permissions %o instead of %o with umask %o", what, p, w.kind, n.Perm&0o777, w.perm, umask)
			}
			t.Event("permissions compared")
		} else if existed && w.kind == "dir" && n.Perm != o.Perm {
			t.Errorf("%s: the existing directory %q changed permissions", what, p)
		}
		t.Event("objects compared: " + w.kind)
		if w.kind == "dir" {
			continue
		}
		if w.group != 0 {
			if g, ok := groups[w.group]; ok && g != n.Ino {
				t.Errorf("%s: %q is not the same file as the others of its hard-link group", what, p)
			}
			groups[w.group] = n.Ino
			t.Event("hard links compared")
		}
		id := fmt.Sprint("group ", w.group)
		if w.group == 0 {
			id = p
		}
		if o, ok := inoOf[n.Ino]; ok && o != id {
			t.Errorf("%s: %q and %q are the same file", what, p, o)
		}
		inoOf[n.Ino] = id
	}
	for p, n := range snap {
		if d.want[p] != nil || p == "." {
			continue
		}
		o, ok := old[p]
		if !ok {
			t.Errorf("%s: %q (%s) is not in the archive", what, p, n.Kind)
		} else if o.Kind != n.Kind || o.Data != n.Data || o.Perm != n.Perm || o.Ino != n.Ino {
			t.Errorf("%s: %q, which is not in the archive, changed", what, p)
		}
	}
	for p := range old {
		if _, ok := snap[p]; !ok {
			t.Errorf("%s: %q, which is not in the archive, disappeared", what, p)
		}
	}
}

func diffText(a, b string) string {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	return fmt.Sprintf("%q instead of %q from byte %d", clip(a[k:], 40), clip(b[k:], 40), k)
}

func (d *diskTree) archive(r *rand.Rand) []byte {
	var w cpioWriter
	for _, e := range d.ents {
		w.add(e)
	}
	tr := trailerEnt()
	if r.IntN(3) == 0 {
		tr.Fields[cMode] = mReg | 0o644
	}
	w.head(tr)
	switch r.IntN(4) {
	case 0:
		w.b.Write(make([]byte, 512-w.b.Len()%512))
	case 1: // whatever comes after the trailer
		w.add(newcEnt("afterwards", mReg|0o644, []byte("no")))
	}
	return w.b.Bytes()
}

// overlay makes the tree come out over objects that exist already: regular
// files (also linked to each other) where regular files go, directories where
// directories go, and things the archive does not name.
func (d *diskTree) existing(t *T, r *rand.Rand, dest string) map[string]node {
	var names []string
	for p := range d.want {
		names = append(names, p)
	}
	sort.Strings(names)
	var last string
	for _, p := range names {
		w := d.want[p]
		at := filepath.Join(dest, p)
		if w.kind == "dir" {
			if r.IntN(2) == 0 {
				t.must(os.MkdirAll(at, 0o755))
				t.must(os.Chmod(at, 0o775))
			}
			continue
		}
		if w.kind != "reg" || w.group != 0 || r.IntN(3) > 0 {
			continue
		}
		t.must(os.MkdirAll(filepath.Dir(at), 0o755))
		if last != "" && r.IntN(2) == 0 {
			t.must(os.Link(last, at))
			t.Event("existing hard links")
			continue
		}
		t.must(os.WriteFile(at, randContent(r, r.IntN(6000)), 0o644))
		last = at
		t.Event("existing files")
	}
	for k := r.IntN(4); k > 0; k-- {
		dir := filepath.Join(dest, []string{"", "keep"}[r.IntN(2)])
		t.must(os.MkdirAll(dir, 0o755))
		f := filepath.Join(dir, fmt.Sprintf("kept%d", k))
		switch r.IntN(3) {
		case 0:
			t.must(os.WriteFile(f, []byte("kept"), 0o640))
		case 1:
			t.must(os.Symlink("nowhere", f))
		case 2:
			if last != "" {
				t.must(os.Link(last, f)) // keeps the old content
			}
		}
	}
	t.must(os.MkdirAll(dest, 0o755))
	all, err := snapshot(dest)
	t.must(err)
	return all
}

// destSpellings are ways to name one directory; cwd is the working directory
// to use. The directory must not be the working directory's parent.
func spellDest(t *T, r *rand.Rand, base string) (dest, cwd, actual, kind string) {
	actual = filepath.Join(base, "dest")
	cwd = base
	kinds := []string{"absolute", "relative", "dot", "./", "trailing slash", "several slashes", "with ..", "./relative", "nested", "nested with trailing slash", "dot slash dot", "through a symlink", "from a subdirectory"}
	kind = kinds[r.IntN(len(kinds))]
	switch kind {
	case "absolute":
		return actual, cwd, actual, kind
	case "relative":
		return "dest", cwd, actual, kind
	case "dot", "./", "dot slash dot":
		t.must(os.Mkdir(actual, 0o755))
		return map[string]string{"dot": ".", "./": "./", "dot slash dot": "./."}[kind], actual, actual, kind
	case "trailing slash":
		return actual + "/", cwd, actual, kind
	case "several slashes":
		return strings.ReplaceAll(actual, "/", "//"), cwd, actual, kind
	case "with ..":
		t.must(os.Mkdir(filepath.Join(base, "side"), 0o755))
		return "side/../dest", cwd, actual, kind
	case "./relative":
		return "./dest", cwd, actual, kind
	case "nested":
		actual = filepath.Join(base, "not", "yet", "dest")
		return "not/yet/dest", cwd, actual, kind
	case "nested with trailing slash":
		actual = filepath.Join(base, "not", "dest")
		return actual + "//", cwd, actual, kind
	case "through a symlink":
		t.must(os.Mkdir(filepath.Join(base, "real"), 0o755))
		actual = filepath.Join(base, "real")
		t.must(os.Symlink("real", filepath.Join(base, "alias")))
		return []string{"alias", "alias/", filepath.Join(base, "alias")}[r.IntN(3)], cwd, actual, kind
	case "from a subdirectory":
		cwd = filepath.Join(base, "cwd")
		t.must(os.Mkdir(cwd, 0o755))
		return "../dest", cwd, actual, kind
	}
	panic("kind")
}

// inDir runs f in another working directory.
func (t *T) inDir(dir string, f func()) {
	t.must(os.Chdir(dir))
	defer func() { t.must(os.Chdir(t.dir)) }()
	f()
}

func init() {
	register(&Check{
		ID:   "C14",
		Rule: "each case is one archive of a generated tree (all kinds of objects, spellings of names, interleaved hard-link groups, implied parents), extracted to one spelling of a destination (new, or over existing contents), under umask 0 or 022, directly or as a package payload; the destination is walked and compared object by object with the generator's model and with what was there before; distinct by archive, destination and prior contents",
		Assumptions: []string{
			"an archive of distinct paths in which every directory comes before its contents must be extracted successfully",
			"permission bits are the nine rwx bits reduced by the umask; those of a directory count if its entry comes before its contents and it did not exist",
			"directories leading to skipped devices may or may not be created",
		},
		Require: map[string]int64{"objects compared: reg": 20000, "objects compared: dir": 10000, "objects compared: link": 7000, "objects compared: fifo": 2500, "hard links compared": 7000, "permissions compared": 12000, "existing hard links": 150, "trees of thousands of objects": 6, "large files compared": 4},
		Groups: []Group{
			{Name: "trees", N: n(8000, 200000), Run: func(t *T, i int) {
				r := t.R
				d := genTree(r, r.IntN(25), true)
				data := d.archive(r)
				base := t.Dir()
				dest, cwd, actual, kind := spellDest(t, r, base)
				var old map[string]node
				if i%3 == 2 {
					old = d.existing(t, r, actual)
				}
				umask := []int{0o022, 0, 0o077, 0o027}[i%4]
				t.Sig(data, kind, i%3 == 2)
				var err error
				how := "Extract"
				t.inDir(cwd, func() {
					syscall.Umask(umask)
					defer syscall.Umask(0o022)
					if i%2 == 0 {
						err = cpio.Extract(onlyRead{&fragReader{data: data, r: r, style: 3 * r.IntN(2)}}, dest)
						return
					}
					how = "ExpandPayload"
					p := &Pkg{Name: "f", Digests: DigestCfg{SHA256: "ok"}}
					comp := []string{"uncompressed", "gzip", "zstd"}[r.IntN(3)]
					p.Gen = append(basicTags(r, "f"), strTag(gPayloadCompressor, comp))
					p.Payload = compress(r, comp, data, 0)
					p.Finish(r)
					var rpm *rpmutils.Rpm
					rpm, err = rpmutils.ReadRpm(bytes.NewReader(p.Bytes()))
					t.must(err)
					err = rpm.ExpandPayload(dest)
				})
				what := fmt.Sprintf("%s to %s (existing: %v)", how, kind, old != nil)
				var sum []string
				for _, e := range d.ents {
					sum = append(sum, fmt.Sprintf("%q %o/%d/%d", clip(e.Name, 30), e.Fields[cMode], e.Fields[cNlink], e.Fields[cSize]))
				}
				t.Note("entries: %v", sum)
				if err != nil {
					t.Fatalf("%s fails: %v", what, err)
				}
				d.compare(t, what, actual, os.FileMode(umask), old)
				if s := stray(base, "dest", "not", "side", "real", "alias", "cwd"); len(s) > 0 {
					t.Errorf("%s: %v appeared beside the destination", what, s)
				}
				t.Seen("destination x prior contents", fmt.Sprint(kind, " / ", old != nil))
				if i < 3 {
					t.Sample(map[string]any{"entries": sum[:min(len(sum), 12)], "destination": kind})
				}
			}},
			{Name: "again", N: n(3000, 60000), Run: func(t *T, i int) {
				// several archives after one another into the same place:
				// whenever extraction succeeds, the archive is there
				r := t.R
				dest := filepath.Join(t.Dir(), "d")
				pool := []string{"a", "b", "c", "d/a", "d/b", "d", "e", "b/x"}
				for step := 0; step < 3; step++ {
					d := &diskTree{want: map[string]*wantNode{}}
					r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
					names := append([]string{}, pool[:2+r.IntN(4)]...)
					sort.Strings(names)
					var sum []string
					for k := 0; k < len(names); k++ {
						n := names[k]
						parentFile := false
						for q := path.Dir(n); q != "."; q = path.Dir(q) {
							if w := d.want[q]; w != nil && w.kind != "dir" {
								parentFile = true
							}
						}
						if parentFile || d.want[n] != nil {
							continue
						}
						kind := r.IntN(6)
						content := randContent(r, r.IntN(200))
						switch {
						case kind == 0:
							d.ents = append(d.ents, newcEnt(n, mDir|0o755, nil))
							d.want[n] = &wantNode{kind: "dir"}
						case kind == 1:
							d.ents = append(d.ents, newcEnt(n, mFifo|0o644, nil))
							d.want[n] = &wantNode{kind: "fifo"}
						case kind == 2:
							d.ents = append(d.ents, newcEnt(n, mLnk|0o777, []byte("e")))
							d.want[n] = &wantNode{kind: "link", data: "e"}
						case kind == 3 && k+1 < len(names) && !strings.HasPrefix(names[k+1], n+"/") && path.Dir(names[k+1]) == path.Dir(n):
							a, b := newcEnt(n, mReg|0o644, nil), newcEnt(names[k+1], mReg|0o644, content)
							a.Fields[cNlink], b.Fields[cNlink] = 2, 2
							a.Fields[cIno], b.Fields[cIno] = uint32(k+1), uint32(k+1)
							d.ents = append(d.ents, a, b)
							d.want[n] = &wantNode{kind: "reg", data: string(content), group: k + 1}
							d.want[names[k+1]] = &wantNode{kind: "reg", data: string(content), group: k + 1}
						default:
							d.ents = append(d.ents, newcEnt(n, mReg|0o644, content))
							d.want[n] = &wantNode{kind: "reg", data: string(content)}
						}
						d.parents(n, false)
						sum = append(sum, fmt.Sprintf("%s:%s", n, d.want[n].kind))
					}
					data := d.archive(r)
					t.Sig(data)
					t.Note("archive %d: %v", step, sum)
					old, err := snapshot(dest)
					if err != nil && !os.IsNotExist(err) {
						t.must(err)
					}
					err = cpio.Extract(bytes.NewReader(data), dest)
					t.Note("-> %v", err)
					if err != nil {
						t.Event("later extractions refused")
						continue
					}
					t.Event("later extractions done")
					got, err := snapshot(dest)
					t.must(err)
					ino := map[int]uint64{}
					for p, w := range d.want {
						n, ok := got[p]
						kind := n.Kind
						if kind == "link" && w.kind == "dir" { // a symlink to a directory serves
							if info, err := os.Stat(filepath.Join(dest, p)); err == nil && info.IsDir() {
								kind = "dir"
							}
						}
						if throughLink(dest, p) {
							continue
						}
						if !ok || kind != w.kind || w.kind != "dir" && n.Data != w.data {
							t.Errorf("archive %d: %q is %s %q instead of %s %q", step, p, kind, clip(n.Data, 40), w.kind, clip(w.data, 40))
						}
						if w.group != 0 {
							if g, ok := ino[w.group]; ok && g != n.Ino {
								t.Errorf("archive %d: hard link %q is another file", step, p)
							}
							ino[w.group] = n.Ino
						}
					}
					for p, o := range old {
						if d.want[p] != nil {
							continue
						}
						if n, ok := got[p]; !ok || n.Kind != o.Kind || n.Data != o.Data {
							if !linkedAlias(dest, p, d) {
								t.Errorf("archive %d: %q, not in the archive, changed from %s %q to %s %q", step, p, o.Kind, clip(o.Data, 40), n.Kind, clip(n.Data, 40))
							}
						}
					}
				}
			}},
			{Name: "many", N: n(6, 60), Run: func(t *T, i int) {
				// thousands of objects, with few file descriptors
				r := t.R
				d := genTree(r, 1500+r.IntN(3000), true)
				data := d.archive(r)
				base := t.Dir()
				dest, cwd, actual, kind := spellDest(t, r, base)
				var old map[string]node
				if i%3 == 2 {
					old = d.existing(t, r, actual)
				}
				t.Sig(data, kind)
				var err error
				t.inDir(cwd, func() {
					var lim syscall.Rlimit
					t.must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
					few := lim
					few.Cur = min(lim.Cur, 300)
					t.must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &few))
					defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
					err = cpio.Extract(onlyRead{bytes.NewReader(data)}, dest)
				})
				what := fmt.Sprintf("%d entries to %s (existing: %v)", len(d.ents), kind, old != nil)
				if err != nil {
					t.Fatalf("%s: Extract fails: %v", what, err)
				}
				d.compare(t, what, actual, 0o022, old)
				t.Event("trees of thousands of objects")
			}},
			{Name: "large", N: n(4, 24), Run: func(t *T, i int) {
				r := t.R
				size := []int64{10 << 20, 260 << 20, 70 << 20, 33 << 20, 2 << 30, 1<<32 - 6000}[i%6] + int64(r.IntN(5000))
				holes := i%2 == 1 // zeros, but for a few blocks
				content := func() io.Reader {
					if holes {
						return &holeReader{size: size}
					}
					return &farReader{size: size, flip: -1}
				}
				var w cpioWriter
				w.add(newcEnt("before", mReg|0o644, []byte("1")))
				e := newcEnt("big", mReg|0o644, nil)
				e.Fields[cSize] = uint32(size)
				w.head(e)
				pad := (4 - (int64(w.b.Len())+size)%4) % 4
				tail, _, _ := buildCpio([]*cpioEnt{newcEnt("after", mReg|0o644, []byte("2"))}, 0)
				t.Sig(size)
				dest := t.Dir()
				if r.IntN(2) == 0 {
					t.must(os.WriteFile(filepath.Join(dest, "big"), randContent(r, 9000), 0o644))
				}
				src := io.MultiReader(bytes.NewReader(w.b.Bytes()), content(), bytes.NewReader(make([]byte, pad)), bytes.NewReader(tail))
				if err := cpio.Extract(src, dest); err != nil {
					t.Fatalf("Extract: %v", err)
				}
				want, k := farSum(content())
				if k != size {
					t.Internal("%d bytes of %d", k, size)
				}
				if got, k := farFile(t, filepath.Join(dest, "big"), 0); k != size || got != want {
					t.Errorf("file of %d bytes (holes %v): %d bytes on disk, equal content %v", size, holes, k, got == want)
				}
				for n, c := range map[string]string{"before": "1", "after": "2"} {
					if b, err := os.ReadFile(filepath.Join(dest, n)); err != nil || string(b) != c {
						t.Errorf("%s: %q, %v", n, b, err)
					}
				}
				t.Event("objects compared: reg", 3)
				t.Event("large files compared")
			}},
		},
	})
}

// holeReader delivers zeros with 100 bytes of something else every 9 MiB or so.
type holeReader struct{ pos, size int64 }

func (h *holeReader) Read(p []byte) (int, error) {
	if h.pos >= h.size {
		return 0, io.EOF
	}
	k := int(min(int64(len(p)), h.size-h.pos))
	clear(p[:k])
	const every = 9<<20 + 4321
	for at := h.pos / every * every; at < h.pos+int64(k); at += every {
		for q := max(at, h.pos); q < min(at+100, h.pos+int64(k)); q++ {
			p[q-h.pos] = byte(q>>3) | 1
		}
	}
	h.pos += int64(k)
	return k, nil
}

// throughLink says whether a directory on the way to p is a symlink.
func throughLink(dest, p string) bool {
	for q := path.Dir(p); q != "."; q = path.Dir(q) {
		if info, err := os.Lstat(filepath.Join(dest, q)); err == nil && info.Mode()&fs.ModeSymlink != 0 {
			return true
		}
	}
	return false
}

// linkedAlias says whether p may have been written to under another name,
// through a symlinked directory.
func linkedAlias(dest, p string, d *diskTree) bool {
	for q := range d.want {
		if throughLink(dest, q) {
			return true
		}
	}
	return false
}
