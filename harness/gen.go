package main

// Generators: an RPM and cpio builder written from the file formats, with no
// use of the code under test. Tag numbers are literal on purpose.

import (
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"math/rand/v2"
	"sort"
	"strings"

	_ "crypto/sha3"
)

const (
	tNull   = 0
	tChar   = 1
	tInt8   = 2
	tInt16  = 3
	tInt32  = 4
	tInt64  = 5
	tString = 6
	tBin    = 7
	tStrArr = 8
	tI18N   = 9
)

const sigBase = 16384

// general header tags
const (
	gName              = 1000
	gVersion           = 1001
	gRelease           = 1002
	gEpoch             = 1003
	gSummary           = 1004
	gBuildTime         = 1006
	gSize              = 1009
	gLicense           = 1014
	gOS                = 1021
	gArch              = 1022
	gOldFilenames      = 1027
	gFileSizes         = 1028
	gFileModes         = 1030
	gFileRdevs         = 1033
	gFileMtimes        = 1034
	gFileDigests       = 1035
	gFileLinktos       = 1036
	gFileFlags         = 1037
	gFileUser          = 1039
	gFileGroup         = 1040
	gSourceRpm         = 1044
	gArchiveSize       = 1046
	gFileDevices       = 1095
	gFileInodes        = 1096
	gDirIndexes        = 1116
	gBasenames         = 1117
	gDirnames          = 1118
	gPayloadFormat     = 1124
	gPayloadCompressor = 1125
	gPayloadFlags      = 1126
	gLongFileSizes     = 5008
	gLongSize          = 5009
	gFileDigestAlgo    = 5011
	gPayloadDigest     = 5092
	gPayloadDigestAlgo = 5093
)

// raw signature header tags
const (
	sDSA             = 267
	sRSA             = 268
	sSHA1            = 269
	sLongSigSize     = 270
	sLongArchiveSize = 271
	sSHA256          = 273
	sSize            = 1000
	sPGP             = 1002
	sMD5             = 1004
	sGPG             = 1005
	sPayloadSize     = 1007
	sReserved        = 1008
)

// HTag is one tag of a header as it is meant to be stored.
type HTag struct {
	Tag, Type, Count int
	Data             []byte
	Val              any // []string, []uint8, []uint16, []uint32, []uint64 or []byte for BIN
}

func cstrs(ss []string) []byte {
	var b bytes.Buffer
	for _, s := range ss {
		b.WriteString(s)
		b.WriteByte(0)
	}
	return b.Bytes()
}

func strTag(tag int, s string) HTag {
	return HTag{tag, tString, 1, cstrs([]string{s}), []string{s}}
}
func strArr(tag int, ss ...string) HTag {
	return HTag{tag, tStrArr, len(ss), cstrs(ss), append([]string{}, ss...)}
}
func i18n(tag int, ss ...string) HTag {
	return HTag{tag, tI18N, len(ss), cstrs(ss), append([]string{}, ss...)}
}
func i8(tag int, v ...uint8) HTag {
	return HTag{tag, tInt8, len(v), append([]byte{}, v...), append([]uint8{}, v...)}
}
func chr(tag int, v ...uint8) HTag {
	h := i8(tag, v...)
	h.Type = tChar
	return h
}
func i16(tag int, v ...uint16) HTag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint16(b, x)
	}
	return HTag{tag, tInt16, len(v), b, append([]uint16{}, v...)}
}
func i32(tag int, v ...uint32) HTag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, x)
	}
	return HTag{tag, tInt32, len(v), b, append([]uint32{}, v...)}
}
func i64(tag int, v ...uint64) HTag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	return HTag{tag, tInt64, len(v), b, append([]uint64{}, v...)}
}
func bin(tag int, v []byte) HTag {
	return HTag{tag, tBin, len(v), append([]byte{}, v...), append([]byte{}, v...)}
}

var dataAlign = map[int]int{tInt16: 2, tInt32: 4, tInt64: 8}

// HOpt controls how a header is laid out.
type HOpt struct {
	Region         int  // region tag (62 or 63), 0 for none
	ShuffleData    bool // data stored in another order than the index
	ShuffleEntries bool // index not sorted by tag
	Gaps           bool // unused bytes between values
	Share          bool // equal or contained values share storage
	TailPad        int  // unused bytes at the end of the data
	Reserved       [4]byte
	PadByte        byte // value of the signature header's padding bytes
}

func randHOpt(r *rand.Rand, region int) HOpt {
	o := HOpt{}
	if r.IntN(3) > 0 {
		o.Region = region
	}
	o.ShuffleData = r.IntN(4) == 0
	o.ShuffleEntries = o.Region == 0 && r.IntN(4) == 0
	o.Gaps = r.IntN(4) == 0
	o.Share = r.IntN(4) == 0
	if r.IntN(3) == 0 {
		o.TailPad = r.IntN(9)
	}
	return o
}

// buildHeader lays out a header. A signature header is padded to 8 bytes.
func buildHeader(r *rand.Rand, tags []HTag, o HOpt, sig bool) []byte {
	tags = append([]HTag{}, tags...)
	sort.SliceStable(tags, func(i, j int) bool { return tags[i].Tag < tags[j].Tag })
	order := make([]int, len(tags))
	for i := range order {
		order[i] = i
	}
	if o.ShuffleData {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	var data []byte
	offs := make([]int, len(tags))
	for _, i := range order {
		t := tags[i]
		if o.Share && len(t.Data) > 0 {
			found := -1
			for from := 0; ; {
				k := bytes.Index(data[from:], t.Data)
				if k < 0 {
					break
				}
				k += from
				if a := dataAlign[t.Type]; a == 0 || k%a == 0 {
					found = k
					break
				}
				from = k + 1
			}
			if found >= 0 {
				offs[i] = found
				continue
			}
		}
		if o.Gaps && r.IntN(2) == 0 {
			for k := r.IntN(12); k > 0; k-- {
				data = append(data, byte(r.IntN(256)))
			}
		}
		if a := dataAlign[t.Type]; a > 0 {
			for len(data)%a != 0 {
				data = append(data, 0)
			}
		}
		offs[i] = len(data)
		data = append(data, t.Data...)
	}
	for k := 0; k < o.TailPad; k++ {
		data = append(data, byte(r.IntN(256)))
	}
	type ent struct{ tag, typ, off, count int32 }
	var ents []ent
	for i, t := range tags {
		ents = append(ents, ent{int32(t.Tag), int32(t.Type), int32(offs[i]), int32(t.Count)})
	}
	if o.ShuffleEntries {
		r.Shuffle(len(ents), func(i, j int) { ents[i], ents[j] = ents[j], ents[i] })
	}
	if o.Region != 0 {
		off := len(data)
		var tr []byte
		tr = binary.BigEndian.AppendUint32(tr, uint32(o.Region))
		tr = binary.BigEndian.AppendUint32(tr, tBin)
		tr = binary.BigEndian.AppendUint32(tr, uint32(-16*(len(ents)+1)))
		tr = binary.BigEndian.AppendUint32(tr, 16)
		data = append(data, tr...)
		ents = append([]ent{{int32(o.Region), tBin, int32(off), 16}}, ents...)
	}
	var b bytes.Buffer
	b.Write([]byte{0x8e, 0xad, 0xe8, 0x01})
	b.Write(o.Reserved[:])
	_ = binary.Write(&b, binary.BigEndian, uint32(len(ents)))
	_ = binary.Write(&b, binary.BigEndian, uint32(len(data)))
	for _, e := range ents {
		_ = binary.Write(&b, binary.BigEndian, e)
	}
	b.Write(data)
	if sig {
		for len(data)%8 != 0 {
			b.WriteByte(o.PadByte)
			data = append(data, 0)
		}
	}
	return b.Bytes()
}

// oddLead is a lead with a package type other than binary (0) and source (1),
// all of which are not source packages.
func oddLead(r *rand.Rand, name string) []byte {
	b := buildLead(name, false)
	v := []uint16{2, 3, 0x100, 0x101, 0x7fff, 0x8001, 0xff01, 0xffff}[r.IntN(8)]
	b[6], b[7] = byte(v>>8), byte(v)
	return b
}

// manyTags makes k tags above those with a meaning.
func manyTags(r *rand.Rand, k int) []HTag {
	tags := make([]HTag, k)
	for i := range tags {
		switch tag := 20000 + i; r.IntN(4) {
		case 0:
			tags[i] = i32(tag, r.Uint32())
		case 1:
			tags[i] = strTag(tag, randName(r))
		case 2:
			tags[i] = i16(tag, uint16(i))
		default:
			tags[i] = bin(tag, []byte{byte(i), byte(i >> 8), 0}[:r.IntN(4)])
		}
	}
	return tags
}

func buildLead(name string, source bool) []byte {
	b := make([]byte, 96)
	copy(b, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0})
	if source {
		b[7] = 1
	}
	b[9] = 1
	if len(name) > 65 {
		name = name[:65]
	}
	copy(b[10:], name)
	b[77] = 1
	b[79] = 5
	return b
}

// variedLead changes what nothing depends on: versions, architecture, system,
// name and reserved space.
func variedLead(r *rand.Rand, b []byte) {
	b[4], b[5] = byte(3+r.IntN(2)), byte(r.IntN(3))
	b[8], b[9] = byte(r.IntN(256)), byte(r.IntN(256))
	b[76], b[77] = byte(r.IntN(256)), byte(r.IntN(256))
	copy(b[10:76], randContent(r, r.IntN(67)))
	if r.IntN(2) == 0 {
		copy(b[80:96], randContent(r, 16))
	}
}

// Pkg is a package under construction together with the model of its content.
type Pkg struct {
	Name           string
	Source         bool
	Sig, Gen       []HTag
	SigOpt, GenOpt HOpt
	Lead           []byte
	SigBytes       []byte
	GenBytes       []byte
	Payload        []byte
	Archive        []byte // uncompressed payload
	Files          []*File
	Digests        DigestCfg
	OddLead        bool
	Signed         bool // has signatures that are not in Sig
	TrueSize       bool // the signature header records the size of what follows
}

// DigestCfg says which digests are recorded and how.
type DigestCfg struct {
	SHA1, SHA256, MD5 string // "", "ok", "bad", or a literal after "="
	Payload           string // "", "ok", "bad", or a literal after "="
	Algo              int    // payload digest algorithm
	NoAlgoTag         bool
}

var okDigests = DigestCfg{SHA1: "ok", SHA256: "ok", MD5: "ok", Payload: "ok", Algo: 8}

func algoHash(algo int) hash.Hash {
	switch algo {
	case 1:
		return md5.New()
	case 2:
		return sha1.New()
	case 8:
		return sha256.New()
	case 9:
		return sha512.New384()
	case 10:
		return sha512.New()
	case 11:
		return sha256.New224()
	}
	return nil
}

func hexSum(h hash.Hash, parts ...[]byte) string {
	for _, p := range parts {
		h.Write(p)
	}
	return hex.EncodeToString(h.Sum(nil))
}

func pickDigest(cfg, right string, r *rand.Rand) string {
	switch {
	case cfg == "ok":
		return right
	case cfg == "bad":
		b := []byte(right)
		i := r.IntN(len(b))
		if b[i] == 'a' {
			b[i] = 'b'
		} else {
			b[i] = 'a'
		}
		return string(b)
	case strings.HasPrefix(cfg, "="):
		return cfg[1:]
	}
	panic("digest config " + cfg)
}

func dropTags(tags []HTag, drop ...int) []HTag {
	var out []HTag
next:
	for _, t := range tags {
		for _, d := range drop {
			if t.Tag == d {
				continue next
			}
		}
		out = append(out, t)
	}
	return out
}

func findTag(tags []HTag, tag int) *HTag {
	for i := range tags {
		if tags[i].Tag == tag {
			return &tags[i]
		}
	}
	return nil
}

// Finish computes digests, lays out both headers and fixes the package bytes.
func (p *Pkg) Finish(r *rand.Rand) {
	d := p.Digests
	p.Gen = dropTags(p.Gen, gPayloadDigest, gPayloadDigestAlgo)
	if d.Payload != "" {
		h := algoHash(d.Algo)
		right := strings.Repeat("0", 64)
		if h != nil {
			right = hexSum(h, p.Payload)
		}
		p.Gen = append(p.Gen, strArr(gPayloadDigest, pickDigest(d.Payload, right, r)))
		if !d.NoAlgoTag {
			p.Gen = append(p.Gen, i32(gPayloadDigestAlgo, uint32(d.Algo)))
		}
	}
	p.GenBytes = buildHeader(r, p.Gen, p.GenOpt, false)
	p.FinishSig(r)
}

// FinishSig recomputes the signature header for the present general header and payload.
func (p *Pkg) FinishSig(r *rand.Rand) {
	d := p.Digests
	p.Sig = dropTags(p.Sig, sSHA1, sSHA256, sMD5)
	if d.SHA1 != "" {
		p.Sig = append(p.Sig, strTag(sSHA1, pickDigest(d.SHA1, hexSum(sha1.New(), p.GenBytes), r)))
	}
	if d.SHA256 != "" {
		p.Sig = append(p.Sig, strTag(sSHA256, pickDigest(d.SHA256, hexSum(sha256.New(), p.GenBytes), r)))
	}
	if d.MD5 != "" {
		v := pickDigest(d.MD5, hexSum(md5.New(), p.GenBytes, p.Payload), r)
		raw, err := hex.DecodeString(v)
		if err != nil {
			raw = []byte(v)
		}
		p.Sig = append(p.Sig, bin(sMD5, raw))
	}
	if p.TrueSize {
		for i := range p.Sig {
			if p.Sig[i].Tag == sSize {
				p.Sig[i] = i32(sSize, uint32(len(p.GenBytes)+len(p.Payload)))
			}
		}
	}
	p.SigBytes = buildHeader(r, p.Sig, p.SigOpt, true)
	if p.Lead == nil {
		p.Lead = buildLead(p.Name, p.Source)
		if r.IntN(5) == 0 {
			variedLead(r, p.Lead)
		}
	}
}

func (p *Pkg) Bytes() []byte {
	var b bytes.Buffer
	b.Write(p.Lead)
	b.Write(p.SigBytes)
	b.Write(p.GenBytes)
	b.Write(p.Payload)
	return b.Bytes()
}

func (p *Pkg) HeaderEnd() int { return 96 + len(p.SigBytes) + len(p.GenBytes) }

// ---------------------------------------------------------------- files

const (
	mReg  = 0o100000
	mDir  = 0o040000
	mLnk  = 0o120000
	mFifo = 0o010000
	mChr  = 0o020000
	mBlk  = 0o060000
)

// File is one packaged file.
type File struct {
	Path    string // as listed
	Dir     string
	Base    string
	Mode    int
	Content []byte
	Big     int64 // if > 0, size of synthetic content (not held in Content)
	Link    string
	Dev     uint32
	Ino     uint32
	Nlink   int
	User    string
	Group   string
	Flags   uint32
	Mtime   uint32
	Digest  string
	Rdev    uint32
	Ghost   bool
	HSize   uint64 // size recorded in the header
	IsLink  bool   // a hard link without content in the payload
}

func (f *File) ftype() int { return f.Mode &^ 0o7777 }

// archived returns the bytes the archive stores for this file
func (f *File) archived() []byte {
	switch f.ftype() {
	case mReg:
		if f.IsLink {
			return nil
		}
		return f.Content
	case mLnk:
		return []byte(f.Link)
	}
	return nil
}

var nameAlphabet = []string{"a", "b", "bin", "lib64", "conf.d", "x y", "é", "日本", "-", "_", "..x", "x..", "A", "Z9", "file.txt", "long" + strings.Repeat("n", 60), "~", "#", "%", "+"}

func randName(r *rand.Rand) string {
	return nameAlphabet[r.IntN(len(nameAlphabet))] + fmt.Sprint(r.IntN(1000))
}

// trailerLike are file names that resemble the name that ends an archive; the
// first is that name, which is an ordinary one within a directory.
var trailerLike = []string{"TRAILER!!!", "TRAILER!!", "TRAILER!!!!", "trailer!!!", "xTRAILER!!!", "TRAILER!!!.gz", " TRAILER!!!", "TRAILER!!! ", ".TRAILER!!!"}

func randContent(r *rand.Rand, size int) []byte {
	b := make([]byte, size)
	switch r.IntN(4) {
	case 0: // zeros
	case 1: // text
		words := []string{"lorem ", "ipsum\n", "dolor\x00", "07070100", "TRAILER!!!", "sit amet "}
		for i := 0; i < size; {
			i += copy(b[i:], words[r.IntN(len(words))])
		}
	case 2: // runs
		for i := 0; i < size; {
			c := byte(r.IntN(256))
			for k := r.IntN(300) + 1; k > 0 && i < size; k-- {
				b[i] = c
				i++
			}
		}
	default:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	}
	return b
}

var sizeClasses = []int{0, 0, 1, 2, 3, 4, 5, 7, 8, 15, 64, 100, 511, 512, 513, 4095, 4096, 4097}

func randSize(r *rand.Rand) int {
	switch r.IntN(8) {
	case 0:
		return r.IntN(40000)
	default:
		return sizeClasses[r.IntN(len(sizeClasses))]
	}
}

// FilesOpt controls the file list generator.
type FilesOpt struct {
	Max     int
	Ghosts  bool
	Special bool
	Links   bool
	Source  bool
}

// genFiles makes a list of files in which hard-link groups have their content
// on the last member.
func genFiles(r *rand.Rand, o FilesOpt) []*File {
	nfiles := r.IntN(o.Max + 1)
	dirs := []string{"/usr/bin/", "/etc/", "/", "/usr/share/doc/x y/", "/opt/a.b/c/d/e/"}
	if o.Source {
		dirs = []string{""}
	}
	var files []*File
	used := map[string]bool{}
	ino := uint32(1)
	newFile := func() *File {
		for {
			d := dirs[r.IntN(len(dirs))]
			b := randName(r)
			if r.IntN(20) == 0 {
				b = trailerLike[r.IntN(len(trailerLike))]
			}
			if used[d+b] || d+b == trailerLike[0] {
				continue
			}
			used[d+b] = true
			f := &File{Dir: d, Base: b, Path: d + b, Nlink: 1, Dev: 1, Ino: ino,
				User: []string{"root", "daemon", "ünï", ""}[r.IntN(4)], Group: []string{"root", "wheel", "g"}[r.IntN(3)],
				Flags: uint32(r.IntN(1 << 13)), Mtime: r.Uint32(), Digest: ""}
			if r.IntN(8) == 0 {
				f.Flags = r.Uint32()
			}
			ino++
			if r.IntN(6) == 0 {
				ino += uint32(r.IntN(1000))
			}
			return f
		}
	}
	for len(files) < nfiles {
		f := newFile()
		switch k := r.IntN(12); {
		case k < 6:
			f.Mode = mReg | []int{0o644, 0o755, 0o600, 0o4755, 0o000}[r.IntN(5)]
			f.Content = randContent(r, randSize(r))
		case k < 8:
			f.Mode = mDir | []int{0o755, 0o700, 0o1777, 0o2750}[r.IntN(4)]
		case k < 9:
			f.Mode = mLnk | 0o777
			f.Link = []string{"a", "../b", "/etc/passwd", "x y/é", strings.Repeat("t", 100)}[r.IntN(5)]
		case k < 10 && o.Special:
			f.Mode = []int{mFifo | 0o644, mChr | 0o600, mBlk | 0o660}[r.IntN(3)]
			f.Rdev = uint32(r.IntN(65536))
		case o.Links:
			// a group of hard links, content on the last
			k := 2 + r.IntN(3)
			content := randContent(r, randSize(r))
			if r.IntN(6) == 0 {
				content = nil
			}
			var group []*File
			for j := 0; j < k; j++ {
				g := f
				if j > 0 {
					g = newFile()
				}
				g.Mode = mReg | 0o644
				g.Dev, g.Ino = f.Dev, f.Ino
				g.Nlink = k
				g.Content = content
				group = append(group, g)
			}
			// other files may come between the members
			pos := len(files)
			for _, g := range group {
				files = append(files, g)
			}
			if r.IntN(2) == 0 && pos > 0 {
				j := r.IntN(pos + 1)
				files[pos], files[j%len(files)] = files[j%len(files)], files[pos]
			}
			continue
		default:
			f.Mode = mReg | 0o644
			f.Content = randContent(r, randSize(r))
		}
		files = append(files, f)
	}
	for _, f := range files {
		f.HSize = uint64(len(f.Content))
		if f.ftype() != mReg { // whatever the file system said
			f.HSize = []uint64{0, 1, 4096, uint64(r.Uint32()), uint64(len(f.Link)), uint64(len(f.Link))}[r.IntN(6)]
		}
		if f.ftype() == mReg {
			s := sha256.Sum256(f.Content)
			f.Digest = hex.EncodeToString(s[:])
		}
		f.Flags &^= flagGhost
		if o.Ghosts && r.IntN(10) == 0 {
			f.Ghost = true
			f.Flags |= flagGhost
		}
	}
	markLinks(files)
	return files
}

// bulkFiles makes k files of all types, among them groups of many hard links,
// in directories of different sizes.
func bulkFiles(r *rand.Rand, k int) []*File {
	files := make([]*File, k)
	group, left := uint32(0), 0
	var content []byte
	for i := range files {
		d := fmt.Sprintf("/d%d/", r.IntN(1+r.IntN(400)))
		b := fmt.Sprintf("f%d", i)
		f := &File{Dir: d, Base: b, Path: d + b, Nlink: 1, Dev: 1, Ino: uint32(i + 1), User: "root", Group: "root", Flags: uint32(r.IntN(64)), Mtime: r.Uint32()}
		switch c := r.IntN(20); {
		case left > 0 && c < 15:
			f.Mode, f.Ino, f.Content, f.Nlink = mReg|0o644, group, content, 2
			left--
		case c < 3:
			f.Mode = mDir | 0o755
			f.HSize = 4096
		case c < 6:
			f.Mode = mLnk | 0o777
			f.Link = fmt.Sprintf("../t%d", i)
			f.HSize = uint64(len(f.Link))
		case c == 6:
			f.Mode = mReg | 0o644
			group, left = f.Ino, 1+r.IntN(k)
			content = []byte(fmt.Sprintf("shared by group %d", group))
			f.Content, f.Nlink = content, 2
		default:
			f.Mode = mReg | 0o600
			f.Content = []byte(fmt.Sprintf("content of %d", i))[:r.IntN(10)]
		}
		if f.ftype() == mReg {
			f.HSize = uint64(len(f.Content))
		}
		files[i] = f
	}
	markLinks(files)
	return files
}

// flagGhost marks files that the package owns but does not contain.
const flagGhost = 1 << 6

// markLinks flags all but the last regular file of each inode, ghosts aside,
// and counts the links.
func markLinks(files []*File) {
	last := map[[2]uint32]*File{}
	count := map[[2]uint32]int{}
	for _, f := range files {
		f.IsLink = false
		if f.ftype() != mReg || f.Ghost {
			continue
		}
		k := [2]uint32{f.Dev, f.Ino}
		count[k]++
		if p := last[k]; p != nil && k != [2]uint32{} {
			p.IsLink = true
		}
		last[k] = f
	}
	for _, f := range files {
		f.Nlink = 1
		if k := [2]uint32{f.Dev, f.Ino}; f.ftype() == mReg && !f.Ghost && k != [2]uint32{} {
			f.Nlink = count[k]
		}
	}
}

// fileTags renders the parallel arrays.
type FileTagOpt struct {
	OldNames  bool
	Long      bool // LONGFILESIZES
	BothSizes bool // also FILESIZES, with other values
	NoDevIno  bool
	ModeWidth int  // 16 (default) or 32
	NoSlash   bool // directory names without a slash at their end
	MoreDirs  bool // some directories are listed twice, or not used
}

func fileTags(r *rand.Rand, files []*File, o FileTagOpt) []HTag {
	if len(files) == 0 {
		return nil
	}
	var tags []HTag
	var names, bases, dirs, users, groups, digests, links []string
	var idx, sizes32, flags, mtimes, devs, inos []uint32
	var sizes64 []uint64
	var modes, rdevs []uint16
	dirIdx := map[string]uint32{}
	for _, f := range files {
		names = append(names, f.Path)
		i, ok := dirIdx[f.Dir]
		if !ok || o.MoreDirs && r.IntN(3) == 0 {
			if o.MoreDirs && r.IntN(3) == 0 {
				dirs = append(dirs, "/unused/")
			}
			i = uint32(len(dirs))
			dirIdx[f.Dir] = i
			d := f.Dir
			if o.NoSlash && len(d) > 1 {
				d = strings.TrimSuffix(d, "/")
			}
			dirs = append(dirs, d)
		}
		idx = append(idx, i)
		bases = append(bases, f.Base)
		users = append(users, f.User)
		groups = append(groups, f.Group)
		digests = append(digests, f.Digest)
		links = append(links, f.Link)
		sizes32 = append(sizes32, uint32(f.HSize))
		sizes64 = append(sizes64, f.HSize)
		flags = append(flags, f.Flags)
		mtimes = append(mtimes, f.Mtime)
		devs = append(devs, f.Dev)
		inos = append(inos, f.Ino)
		modes = append(modes, uint16(f.Mode))
		rdevs = append(rdevs, uint16(f.Rdev))
	}
	if o.OldNames {
		tags = append(tags, strArr(gOldFilenames, names...))
	} else {
		tags = append(tags, strArr(gBasenames, bases...), strArr(gDirnames, dirs...), i32(gDirIndexes, idx...))
	}
	if o.Long {
		tags = append(tags, i64(gLongFileSizes, sizes64...))
		if o.BothSizes {
			for i := range sizes32 {
				sizes32[i] += 7
			}
			tags = append(tags, i32(gFileSizes, sizes32...))
		}
	} else {
		tags = append(tags, i32(gFileSizes, sizes32...))
	}
	if o.ModeWidth == 32 {
		var m []uint32
		for _, x := range modes {
			m = append(m, uint32(x))
		}
		tags = append(tags, i32(gFileModes, m...))
	} else {
		tags = append(tags, i16(gFileModes, modes...))
	}
	tags = append(tags, i16(gFileRdevs, rdevs...), i32(gFileMtimes, mtimes...), strArr(gFileDigests, digests...),
		strArr(gFileLinktos, links...), i32(gFileFlags, flags...), strArr(gFileUser, users...), strArr(gFileGroup, groups...))
	if !o.NoDevIno {
		tags = append(tags, i32(gFileDevices, devs...), i32(gFileInodes, inos...))
	}
	return tags
}

// ---------------------------------------------------------------- cpio

type cpioEnt struct {
	Name      string
	Fields    [13]uint32 // ino mode uid gid nlink mtime filesize devmaj devmin rdevmaj rdevmin namesize check
	Data      []byte
	Stripped  bool
	Index     int
	UpperHex  bool
	DataStart int // offset in the archive
	DataEnd   int
}

// headEnd is how much of the archive an entry's header takes, including its name.
func (e *cpioEnt) headEnd() int {
	if e.Stripped {
		return e.DataStart
	}
	return e.DataStart - 3
}

const (
	cIno = iota
	cMode
	cUid
	cGid
	cNlink
	cMtime
	cSize
	cDevMaj
	cDevMin
	cRdevMaj
	cRdevMin
	cNameSize
	cCheck
)

func newcEnt(name string, mode int, data []byte) *cpioEnt {
	e := &cpioEnt{Name: name, Data: data}
	e.Fields[cMode] = uint32(mode)
	e.Fields[cNlink] = 1
	e.Fields[cSize] = uint32(len(data))
	e.Fields[cNameSize] = uint32(len(name) + 1)
	return e
}

type cpioWriter struct {
	b   bytes.Buffer
	pad func() byte
}

func (w *cpioWriter) align() {
	for w.b.Len()%4 != 0 {
		if w.pad != nil {
			w.b.WriteByte(w.pad())
		} else {
			w.b.WriteByte(0)
		}
	}
}

func (w *cpioWriter) head(e *cpioEnt) {
	f := "%08x"
	if e.UpperHex {
		f = "%08X"
	}
	if e.Stripped {
		w.b.WriteString("07070X")
		fmt.Fprintf(&w.b, f, e.Index)
		return
	}
	w.b.WriteString("070701")
	for _, v := range e.Fields {
		fmt.Fprintf(&w.b, f, v)
	}
	w.b.WriteString(e.Name)
	w.b.WriteByte(0)
	w.align()
}

func (w *cpioWriter) add(e *cpioEnt) {
	w.head(e)
	e.DataStart = w.b.Len()
	w.b.Write(e.Data)
	e.DataEnd = w.b.Len()
	w.align()
}

func trailerEnt() *cpioEnt { return newcEnt("TRAILER!!!", 0, nil) }

// buildCpio renders entries followed by the trailer; end is the offset right
// after the trailer's name.
func buildCpio(ents []*cpioEnt, tail int) (b []byte, trailerStart, end int) {
	var w cpioWriter
	for _, e := range ents {
		w.add(e)
	}
	trailerStart = w.b.Len()
	tr := trailerEnt()
	w.head(tr)
	end = trailerStart + 110 + 11
	for i := 0; i < tail; i++ {
		w.b.WriteByte(0)
	}
	return w.b.Bytes(), trailerStart, end
}

// archiveOf renders the payload archive of a file list.
func archiveOf(r *rand.Rand, files []*File, stripped bool, dot string, order []int) ([]byte, []*cpioEnt) {
	var ents []*cpioEnt
	if order == nil {
		for i := range files {
			order = append(order, i)
		}
	}
	for _, i := range order {
		f := files[i]
		if f.Ghost {
			continue
		}
		var e *cpioEnt
		data := f.archived()
		if stripped {
			e = &cpioEnt{Stripped: true, Index: i, Data: data}
		} else {
			name := f.Path
			if dot != "" && strings.HasPrefix(name, "/") {
				name = dot + name
			}
			e = newcEnt(name, f.Mode, data)
			e.Fields[cIno] = f.Ino
			e.Fields[cNlink] = uint32(f.Nlink)
			e.Fields[cMtime] = f.Mtime
			e.Fields[cDevMin] = f.Dev
			e.Fields[cRdevMin] = f.Rdev
		}
		e.UpperHex = r.IntN(2) == 0
		ents = append(ents, e)
	}
	b, _, _ := buildCpio(ents, []int{0, 3, 512 - 124, 4}[r.IntN(4)])
	return b, ents
}

// ---------------------------------------------------------------- packages

// PkgOpt selects the kind of package to generate.
type PkgOpt struct {
	MaxFiles   int
	Compressor string // "" means no tag, raw payload
	NoCompTag  bool   // do not record the compressor
	Stripped   bool
	RawPayload int  // if > 0, payload is just random bytes of this size
	Plain      bool // plain layout
	Digests    *DigestCfg
}

func basicTags(r *rand.Rand, name string) []HTag {
	tags := []HTag{
		strTag(gName, name), strTag(gVersion, fmt.Sprintf("%d.%d", r.IntN(10), r.IntN(10))), strTag(gRelease, fmt.Sprint(r.IntN(9))),
		strTag(gArch, []string{"x86_64", "noarch", "aarch64"}[r.IntN(3)]),
		i18n(gSummary, "a summary"), strTag(gLicense, "MIT"), strTag(gOS, "linux"), i32(gBuildTime, 1700000000),
		i32(gSize, uint32(r.IntN(100000))),
	}
	if r.IntN(3) == 0 {
		tags = append(tags, i32(gEpoch, uint32(r.IntN(5))))
	}
	return tags
}

// genPkg makes a complete, intact package.
func genPkg(r *rand.Rand, o PkgOpt) *Pkg {
	p := &Pkg{Name: "pkg" + fmt.Sprint(r.IntN(100)), Digests: okDigests}
	if o.Digests != nil {
		p.Digests = *o.Digests
	}
	p.Gen = basicTags(r, p.Name)
	if o.MaxFiles > 0 {
		p.Files = genFiles(r, FilesOpt{Max: o.MaxFiles, Links: true, Special: true, Ghosts: true})
		p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{Long: r.IntN(3) == 0, OldNames: r.IntN(5) == 0})...)
	}
	if o.RawPayload > 0 {
		p.Payload = randContent(r, o.RawPayload)
		p.Archive = p.Payload
	} else {
		p.Archive, _ = archiveOf(r, p.Files, o.Stripped, ".", nil)
		p.Payload = p.Archive
		if o.Compressor != "" && o.Compressor != "uncompressed" {
			p.Payload = compress(r, o.Compressor, p.Archive, 0)
		}
	}
	if o.Compressor != "" && !o.NoCompTag {
		p.Gen = append(p.Gen, strTag(gPayloadCompressor, o.Compressor))
	}
	if r.IntN(4) > 0 {
		p.Gen = append(p.Gen, strTag(gPayloadFormat, "cpio"))
	}
	p.Sig = append(p.Sig, i32(sSize, uint32(r.IntN(1<<20))), i32(sPayloadSize, uint32(len(p.Archive))))
	if r.IntN(2) == 0 {
		k := []int{0, 4, 16, 32, 300, 1000, 2000, 4128}[r.IntN(8)]
		p.Sig = append(p.Sig, bin(sReserved, make([]byte, k)))
	}
	if !o.Plain {
		p.SigOpt = randHOpt(r, 62)
		p.GenOpt = randHOpt(r, 63)
		if r.IntN(6) == 0 {
			p.Source = true
		}
		// some filler of random length shifts alignments
		if r.IntN(2) == 0 {
			p.Sig = append(p.Sig, strTag(9000+r.IntN(100), strings.Repeat("s", r.IntN(20))))
		}
		if r.IntN(2) == 0 {
			p.Gen = append(p.Gen, bin(9000+r.IntN(100), randContent(r, r.IntN(20))))
		}
	} else {
		p.SigOpt.Region, p.GenOpt.Region = 62, 63
	}
	p.TrueSize = r.IntN(4) > 0
	p.Finish(r)
	return p
}

var cryptoByName = map[string]crypto.Hash{"sha1": crypto.SHA1, "sha224": crypto.SHA224, "sha256": crypto.SHA256, "sha384": crypto.SHA384, "sha512": crypto.SHA512}
