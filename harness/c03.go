package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C03: tag queries return exactly what is stored.

func randStr(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", r.IntN(300))
	case 2: // any bytes but NUL
		b := make([]byte, r.IntN(20))
		for i := range b {
			b[i] = byte(1 + r.IntN(255))
		}
		return string(b)
	case 3:
		return "line1\nline2\ttab é 日本\r\n"
	}
	return randName(r)
}

func randStrs(r *rand.Rand, k int) []string {
	out := make([]string, k)
	for i := range out {
		out[i] = randStr(r)
	}
	return out
}

var boundary64 = func() []uint64 {
	out := []uint64{0, 1, 2, 9, 10, 100}
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 33, 52, 53, 62, 63} {
		v := uint64(1) << b
		out = append(out, v-1, v, v+1)
	}
	return append(out, ^uint64(0), ^uint64(0)-1)
}()

func randU64(r *rand.Rand) uint64 {
	switch r.IntN(3) {
	case 0:
		return r.Uint64() >> r.IntN(64)
	}
	return boundary64[r.IntN(len(boundary64))]
}

func randCount(r *rand.Rand) int {
	return []int{0, 1, 1, 1, 1, 2, 3, 7, 40}[r.IntN(9)]
}

// randHTag makes a tag of a random type. small keeps integers in range of the width naturally.
func randHTag(r *rand.Rand, tag int) HTag {
	k := randCount(r)
	switch r.IntN(12) {
	case 0:
		return strTag(tag, randStr(r))
	case 1:
		return strArr(tag, randStrs(r, k)...)
	case 2:
		return i18n(tag, randStrs(r, k)...)
	case 3:
		return bin(tag, randContent(r, []int{0, 1, 2, 16, 70, 300}[r.IntN(6)]))
	case 4, 5:
		v := make([]uint8, k)
		for i := range v {
			v[i] = uint8(randU64(r))
		}
		if r.IntN(2) == 0 {
			return chr(tag, v...)
		}
		return i8(tag, v...)
	case 6:
		v := make([]uint16, k)
		for i := range v {
			v[i] = uint16(randU64(r))
		}
		return i16(tag, v...)
	case 7, 8:
		v := make([]uint32, k)
		for i := range v {
			v[i] = uint32(randU64(r))
			if r.IntN(2) == 0 {
				v[i] &= 0x7fffffff
			}
		}
		return i32(tag, v...)
	case 9, 10:
		v := make([]uint64, k)
		for i := range v {
			v[i] = randU64(r)
		}
		return i64(tag, v...)
	}
	return HTag{Tag: tag, Type: tNull}
}

// reserved for digests, signatures and the file list, which have meaning
var specialTags = map[int]bool{sDSA: true, sRSA: true, sSHA1: true, sSHA256: true, sMD5: true, sPGP: true, sGPG: true, gOldFilenames: true, gBasenames: true, gDirnames: true, gDirIndexes: true}

func randTagNumber(r *rand.Rand, sig bool) int {
	for {
		var tag int
		switch r.IntN(5) {
		case 0:
			tag = []int{64, 100, 256, 270, 271, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1007, 1008, 1009, 1010, 5092, 16383}[r.IntN(18)]
		case 1:
			tag = 1000 + r.IntN(140)
		case 2:
			tag = 5000 + r.IntN(100)
		case 3:
			tag = 64 + r.IntN(940)
		default:
			tag = 64 + r.IntN(16320)
		}
		if !sig && tag < 1000 {
			continue
		}
		if !specialTags[tag] {
			return tag
		}
	}
}

// randTagPkg makes a package with arbitrary tags in both areas.
func randTagPkg(r *rand.Rand) *Pkg {
	p := &Pkg{Name: "t", Digests: []DigestCfg{{}, {SHA1: "ok"}, {SHA256: "ok"}, {SHA1: "ok", SHA256: "ok", MD5: "ok"}}[r.IntN(4)]}
	used := [2]map[int]bool{{}, {}}
	add := func(sig bool, tag int) {
		k := b2i(sig)
		if used[k][tag] {
			return
		}
		used[k][tag] = true
		h := randHTag(r, tag)
		if sig {
			p.Sig = append(p.Sig, h)
		} else {
			p.Gen = append(p.Gen, h)
		}
	}
	for k := r.IntN(25); k > 0; k-- {
		tag := randTagNumber(r, true)
		add(true, tag)
		if tag >= 1000 && r.IntN(2) == 0 {
			add(false, tag) // same number in both areas
		}
	}
	for k := r.IntN(25); k > 0; k-- {
		add(false, randTagNumber(r, false))
	}
	if r.IntN(10) == 0 { // at the edge of the routing
		add(false, 16384)
	}
	// such numbers denote the signature header, whichever area has them
	for r.IntN(3) == 0 {
		add(false, []int{64 + r.IntN(936), 100, sRSA, sSHA1, sSHA256, 269, 999}[r.IntN(7)])
	}
	if r.IntN(4) == 0 { // the tags of an ordinary package too
		for _, h := range append(basicTags(r, "t"), fileTags(r, genFiles(r, FilesOpt{Max: 6, Links: true}), FileTagOpt{Long: r.IntN(2) == 0})...) {
			if !used[0][h.Tag] {
				used[0][h.Tag] = true
				p.Gen = append(p.Gen, h)
			}
		}
	}
	if !used[0][gOldFilenames] && r.IntN(8) == 0 {
		// stored, it is returned as it is, whatever other names there are
		h := randHTag(r, gOldFilenames)
		if r.IntN(2) == 0 {
			h = strArr(gOldFilenames, randStr(r), "/old/name", randStr(r))
		}
		used[0][gOldFilenames] = true
		p.Gen = append(p.Gen, h)
	}
	switch r.IntN(6) {
	case 0:
		p.Source = true
	case 1:
		p.Lead = oddLead(r, p.Name)
		p.OddLead = true
	}
	p.SigOpt, p.GenOpt = randHOpt(r, 62), randHOpt(r, 63)
	if r.IntN(3) == 0 {
		p.SigOpt.PadByte = byte(r.IntN(256))
	}
	p.Payload = randContent(r, r.IntN(40))
	p.Finish(r)
	return p
}

func checkAllTags(t *T, p *Pkg, hdr *rpmutils.RpmHeader) {
	for i := range p.Sig {
		h := &p.Sig[i]
		checkTag(t, hdr, h.Tag+sigBase, h)
		if h.Tag < 1000 {
			checkTag(t, hdr, h.Tag, h)
		}
		if h.Tag >= 1000 && findTag(p.Gen, h.Tag) == nil {
			checkTag(t, hdr, h.Tag, nil) // not to be found in the general header
		}
	}
	for i := range p.Gen {
		h := &p.Gen[i]
		if p.Signed && (h.Tag == sRSA || h.Tag == sPGP) {
			continue
		}
		if h.Tag < 1000 {
			if findTag(p.Sig, h.Tag) == nil {
				checkTag(t, hdr, h.Tag, nil)
				t.Event("lookups of a tag only the other area has")
			}
			continue
		}
		checkTag(t, hdr, h.Tag, h)
		if findTag(p.Sig, h.Tag) == nil && h.Tag != 16384 && h.Tag != gOldFilenames {
			checkTag(t, hdr, h.Tag+sigBase, nil)
		}
	}
}

func init() {
	register(&Check{
		ID:   "C03",
		Rule: "each case is a package with random tags of all types in both header areas, in random storage layouts (regions, permuted, shared or gapped storage), every query compared to the builder's record for stored and absent tags; distinct by package bytes",
		Assumptions: []string{
			"the number carried by the no-such-tag error may be the tag's raw or its offset number",
			"integer queries that would have to narrow a 64-bit tag may refuse (C04 decides exactness)",
		},
		Require: map[string]int64{"value queries": 50000, "integer queries": 50000, "absent tags": 2000, "large values compared": 40},
		Groups: []Group{
			{Name: "random-tags", N: n(20000, 2000000), Run: func(t *T, i int) {
				r := t.R
				p := randTagPkg(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				t.Event("packages")
				if i < 16 {
					t.Sample(map[string]any{"signature_tags": len(p.Sig), "general_tags": len(p.Gen), "layout_sig": fmt.Sprintf("%+v", p.SigOpt), "layout_gen": fmt.Sprintf("%+v", p.GenOpt)})
				}
				checkAllTags(t, p, hdr)
				for k := 0; k < 4; k++ {
					tag := randTagNumber(r, true)
					if findTag(p.Sig, tag) == nil {
						checkTag(t, hdr, tag+sigBase, nil)
						if tag < 1000 {
							checkTag(t, hdr, tag, nil)
						}
					}
					if tag >= 1000 && findTag(p.Gen, tag) == nil {
						checkTag(t, hdr, tag, nil)
					}
				}
				for _, q := range []int{0, -1, -70, -1000, 1 << 30, 16384 + 16384} {
					if hdr.HasTag(q) {
						t.Errorf("HasTag(%d) is true", q)
					}
				}
				if !hasFileNames(p.Gen) {
					_, err := hdr.Get(gOldFilenames)
					var e rpmutils.NoSuchTagError
					if !errors.As(err, &e) {
						t.Errorf("Get(OLDFILENAMES) without files: %v", err)
					}
				}
				incompleteNames(t, r)
				// lead flag
				if hdr.IsSource() != p.Source {
					t.Errorf("IsSource() = %v", hdr.IsSource())
				}
			}},
			{Name: "same-through-every-reader", N: n(150, 3000), Run: func(t *T, i int) {
				// headers returned by the other entry points answer alike
				r := t.R
				p := randTagPkg(r)
				if r.IntN(4) > 0 {
					p.Source = r.IntN(2) == 0
					p.Lead = nil
				}
				p.Digests.Payload, p.Digests.Algo = "ok", 8
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadRpm: %v", err)
				}
				checkAllTags(t, p, rpm.Header)
				hdr, _, err := rpmutils.Verify(bytes.NewReader(data), nil)
				if err != nil {
					t.Fatalf("Verify: %v", err)
				}
				checkAllTags(t, p, hdr)
				if rpm.Header.IsSource() != p.Source || hdr.IsSource() != p.Source {
					t.Errorf("IsSource() = %v, %v", rpm.Header.IsSource(), hdr.IsSource())
				}
				hdr, err = rpmutils.SignRpmStream(bytes.NewReader(data), key("ed25519").Key, nil)
				if err != nil {
					t.Fatalf("SignRpmStream: %v", err)
				}
				q := *p
				q.Signed = true
				q.Sig = dropTags(q.Sig, sRSA, sDSA, sPGP, sGPG)
				checkAllTags(t, &q, hdr)
				if hdr.IsSource() != p.Source {
					t.Errorf("IsSource() = %v after signing", hdr.IsSource())
				}
				t.Event("packages", 3)
			}},
			{Name: "many", N: n(12, 200), Run: func(t *T, i int) {
				// many tags, and tags of many values
				r := t.R
				p := &Pkg{Name: "t", Digests: DigestCfg{SHA256: "ok"}}
				k := []int{300, 1100, 2100, 4200, 9000, 15000}[i%6]
				for j := 0; j < k; j++ {
					h := randHTag(r, 1100+j)
					if h.Count > 4 {
						h = i32(h.Tag, uint32(j))
					}
					if h.Tag >= gOldFilenames && (h.Tag < 1115 || h.Tag > 1120) {
						if i/6%2 == 0 {
							p.Gen = append(p.Gen, h)
						} else {
							p.Sig = append(p.Sig, h)
						}
					}
				}
				c := []int{255, 256, 4095, 32768, 65536, 70000}[(i+i/6)%6] + r.IntN(3)
				var s []string
				var v []uint64
				for j := 0; j < c; j++ {
					s = append(s, strings.Repeat("v", r.IntN(3))+fmt.Sprint(j%7))
					v = append(v, uint64(j)<<r.IntN(4))
				}
				p.Gen = append(p.Gen, strArr(1050, s...), i18n(1051, s...), intTag(r, 1052, tInt32, v), intTag(r, 1053, tInt16, v), intTag(r, 1054, tInt64, v), intTag(r, 1055, tInt8, v), bin(1056, make([]byte, c)))
				if i%2 == 0 {
					p.Sig, p.Gen = p.Gen, p.Sig
				}
				p.SigOpt, p.GenOpt = randHOpt(r, 62), randHOpt(r, 63)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				t.Seen("many tags x values", fmt.Sprint(k, " ", c))
				checkAllTags(t, p, hdr)
			}},
			{Name: "large values", N: n(10, 60), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "t", Digests: DigestCfg{SHA256: "ok"}}
				k := []int{65536, 1 << 20, 3 << 20, 9 << 20, 17 << 20}[i%5] + r.IntN(100)
				content := func(k int) []byte {
					b := make([]byte, k)
					for j := range b {
						b[j] = byte(1 + r.IntN(255))
					}
					return b
				}
				p.Gen = append(p.Gen, bin(1050, append(make([]byte, 100), content(k)...)), strTag(1051, string(content(k))), strArr(1052, "a", string(content(k/3)), "", string(content(k/7)), "z"), i18n(1053, string(content(k/5)), "en"))
				if i/5%2 == 1 {
					p.Sig, p.Gen = p.Gen, nil
				}
				p.Finish(r)
				t.Sig(i, k)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(p.Bytes()))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				checkAllTags(t, p, hdr)
				t.Event("large values compared", 4)
			}},
			{Name: "fixtures", N: func(string) int { return len(fixtureRpms()) }, Run: func(t *T, i int) {
				data := fixture(fixtureRpms()[i])
				t.Sig(data)
				ref, err := parsePkg(data)
				t.must(err)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				p := &Pkg{Sig: tagsFromRef(ref.Sig), Gen: tagsFromRef(ref.Gen)}
				checkAllTags(t, p, hdr)
				t.Event("fixture tags", len(p.Sig)+len(p.Gen))
			}},
			{Name: "constants", N: n(1, 1), Run: func(t *T, i int) {
				for name, v := range constants {
					if v[0] != v[1] {
						t.Errorf("constant %s is %d, rpm has %d", name, v[0], v[1])
					}
					t.Event("constants")
				}
			}},
		},
	})
}

// incompleteNames asks for file names that cannot be put together.
func incompleteNames(t *T, r *rand.Rand) {
	k := 1 + r.IntN(3)
	parts := map[int]HTag{gBasenames: strArr(gBasenames, randStrs(r, k)...), gDirnames: strArr(gDirnames, randStrs(r, k)...), gDirIndexes: i32(gDirIndexes, make([]uint32, k)...)}
	p := &Pkg{Name: "t", Digests: DigestCfg{SHA256: "ok"}}
	absent := false
	drop := 1 + r.IntN(7)
	for j, tag := range []int{gBasenames, gDirnames, gDirIndexes} {
		switch {
		case drop>>j&1 == 0:
			p.Gen = append(p.Gen, parts[tag])
		case r.IntN(3) == 0: // of the wrong type
			if tag == gDirIndexes {
				p.Gen = append(p.Gen, strArr(tag, "0"))
			} else {
				p.Gen = append(p.Gen, i32(tag, 0))
			}
		default:
			absent = true
		}
	}
	p.Finish(r)
	hdr, err := rpmutils.ReadHeader(bytes.NewReader(p.Bytes()))
	if err != nil {
		t.Fatalf("ReadHeader: %v", err)
	}
	one, err1 := hdr.Get(gOldFilenames)
	all, err2 := hdr.GetStrings(gOldFilenames)
	_, err3 := hdr.GetString(gOldFilenames)
	var e rpmutils.NoSuchTagError
	for _, err := range []error{err1, err2, err3} {
		if err == nil || drop>>2 == 0 && !absent && errors.As(err, &e) {
			t.Errorf("names that cannot be put together (%03b): %v, %v; errors %v, %v, %v", drop, one, all, err1, err2, err3)
			break
		}
	}
	t.Event("names that cannot be put together")
}

func hasFileNames(tags []HTag) bool {
	return findTag(tags, gBasenames) != nil || findTag(tags, gOldFilenames) != nil
}

// tagsFromRef turns parsed entries into the model, leaving out regions.
func tagsFromRef(h *refHdr) []HTag {
	var out []HTag
	for _, e := range h.Ents {
		if e.Tag < 64 {
			continue
		}
		x := HTag{Tag: e.Tag, Type: e.Type, Count: e.Count, Data: e.Data}
		switch {
		case isStrType(e.Type):
			ss := strings.Split(string(e.Data), "\x00")
			x.Val = append([]string{}, ss[:e.Count]...)
		case e.Type == tBin:
			x.Val = append([]byte{}, e.Data...)
		case e.Type == tInt8 || e.Type == tChar:
			x.Val = append([]uint8{}, e.Data...)
		case e.Type == tInt16:
			v := []uint16{}
			for k := 0; k < e.Count; k++ {
				v = append(v, uint16(e.Data[2*k])<<8|uint16(e.Data[2*k+1]))
			}
			x.Val = v
		case e.Type == tInt32:
			v := []uint32{}
			for k := 0; k < e.Count; k++ {
				v = append(v, uint32(be32(e.Data[4*k:])))
			}
			x.Val = v
		case e.Type == tInt64:
			v := []uint64{}
			for k := 0; k < e.Count; k++ {
				v = append(v, uint64(uint32(be32(e.Data[8*k:])))<<32|uint64(uint32(be32(e.Data[8*k+4:]))))
			}
			x.Val = v
		}
		out = append(out, x)
	}
	return out
}

var _ = os.Stat
