package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C04: integer queries are exact or fail.

func intTag(r *rand.Rand, tag, typ int, vals []uint64) HTag {
	switch typ {
	case tChar, tInt8:
		var v []uint8
		for _, x := range vals {
			v = append(v, uint8(x))
		}
		if typ == tChar {
			return chr(tag, v...)
		}
		return i8(tag, v...)
	case tInt16:
		var v []uint16
		for _, x := range vals {
			v = append(v, uint16(x))
		}
		return i16(tag, v...)
	case tInt32:
		var v []uint32
		for _, x := range vals {
			v = append(v, uint32(x))
		}
		return i32(tag, v...)
	}
	return i64(tag, vals...)
}

// usable: an integer tag with exactly one value
func usable(h *HTag) bool { return h != nil && isIntType(h.Type) && h.Count == 1 }

// sizeTag makes a candidate for a size tag; nil means absent.
func sizeTag(r *rand.Rand, tag, kind int) *HTag {
	vals := []uint64{randU64(r)}
	typ := tInt32
	switch kind {
	case 0:
		return nil
	case 1:
		typ = tInt64
	case 2:
	case 3:
		typ = []int{tInt8, tInt16, tChar}[r.IntN(3)]
	case 4: // several values
		typ = []int{tInt32, tInt64}[r.IntN(2)]
		vals = append(vals, randU64(r))
	case 5: // none
		typ = []int{tInt32, tInt64}[r.IntN(2)]
		vals = nil
	case 6:
		h := strTag(tag, fmt.Sprint(vals[0]))
		return &h
	case 7:
		h := bin(tag, []byte{1, 2, 3, 4})
		return &h
	}
	h := intTag(r, tag, typ, vals)
	return &h
}

const sizeKinds = 8

func init() {
	register(&Check{
		ID:   "C04",
		Rule: "each case is a package with integer tags of a given width, value count and values (all boundaries of 2^7..2^64 plus random), or one combination of the short and long size tags (8 kinds each); results compared with exact arithmetic; distinct by package bytes",
		Assumptions: []string{
			"when the long tag is present but unusable, PayloadSize may refuse instead of using the short one",
		},
		Require: map[string]int64{"integer queries": 20000, "size queries": 3000, "long lists compared": 10},
		Groups: []Group{
			{Name: "boundaries", N: n(5*len(boundary64), 5*len(boundary64)), Run: func(t *T, i int) {
				r := t.R
				typ := []int{tInt8, tChar, tInt16, tInt32, tInt64}[i%5]
				v := boundary64[i/5]
				p := &Pkg{Name: "t"}
				one := intTag(r, 2000, typ, []uint64{v})
				two := intTag(r, 2001, typ, []uint64{3, v})
				three := intTag(r, 2002, typ, []uint64{v, v + 1, 7})
				none := intTag(r, 2003, typ, nil)
				p.Gen = []HTag{one, two, three, none}
				p.Sig = []HTag{one, two, three, none}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				for k := range p.Gen {
					checkTag(t, hdr, p.Gen[k].Tag, &p.Gen[k])
					checkTag(t, hdr, p.Sig[k].Tag+sigBase, &p.Sig[k])
				}
				if i < 2 {
					t.Sample(map[string]any{"type": typ, "value": v})
				}
			}},
			{Name: "random-integers", N: n(24000, 300000), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "t"}
				for k := 0; k < 12; k++ {
					vals := make([]uint64, randCount(r))
					for j := range vals {
						vals[j] = randU64(r)
					}
					h := intTag(r, 2000+k, []int{tInt8, tChar, tInt16, tInt32, tInt64}[r.IntN(5)], vals)
					if r.IntN(2) == 0 {
						p.Gen = append(p.Gen, h)
					} else {
						p.Sig = append(p.Sig, h)
					}
				}
				p.GenOpt, p.SigOpt = randHOpt(r, 63), randHOpt(r, 62)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				for k := range p.Gen {
					checkInts(t, hdr, p.Gen[k].Tag, &p.Gen[k])
				}
				for k := range p.Sig {
					checkInts(t, hdr, p.Sig[k].Tag+sigBase, &p.Sig[k])
				}
			}},
			{Name: "long lists", N: n(10, 100), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "t"}
				vals := make([]uint64, []int{65535, 65536, 100000, 300000}[r.IntN(4)]+r.IntN(3))
				for j := range vals {
					vals[j] = randU64(r)
					if i/5%2 == 0 {
						vals[j] &= 0x7fffffff
					}
				}
				h := intTag(r, 2000, []int{tInt8, tChar, tInt16, tInt32, tInt64}[i%5], vals)
				p.Gen = append(p.Gen, h)
				p.Finish(r)
				t.Sig(p.Bytes())
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(p.Bytes()))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				checkInts(t, hdr, h.Tag, &h)
				t.Event("long lists compared")
			}},
			{Name: "size-fallbacks", N: n(sizeKinds*sizeKinds*40, sizeKinds*sizeKinds*4000), Run: func(t *T, i int) {
				r := t.R
				ks, kl := i%sizeKinds, i/sizeKinds%sizeKinds
				p := &Pkg{Name: "t"}
				add := func(l *[]HTag, h *HTag) {
					if h != nil {
						*l = append(*l, *h)
					}
				}
				short, long := sizeTag(r, gSize, ks), sizeTag(r, gLongSize, kl)
				add(&p.Gen, short)
				add(&p.Gen, long)
				sshort, slong := sizeTag(r, sPayloadSize, ks), sizeTag(r, sLongArchiveSize, kl)
				add(&p.Sig, sshort)
				add(&p.Sig, slong)
				// decoys in the other area
				if r.IntN(2) == 0 {
					p.Gen = append(p.Gen, i32(sPayloadSize, 4242))
				}
				if r.IntN(2) == 0 {
					p.Sig = append(p.Sig, i32(gSize, 4343), i64(gLongSize, 4444))
				}
				if r.IntN(2) == 0 {
					p.Gen = append(p.Gen, i32(gArchiveSize, 4545))
				}
				// a package has more from which a size could be guessed
				if r.IntN(2) == 0 {
					p.Files = genFiles(r, FilesOpt{Max: 5, Links: true})
					p.Gen = append(p.Gen, fileTags(r, p.Files, FileTagOpt{Long: r.IntN(2) == 0, OldNames: r.IntN(3) == 0})...)
					p.Gen = append(p.Gen, dropTags(basicTags(r, "t"), gSize)...)
					p.Payload, _ = archiveOf(r, p.Files, false, ".", nil)
				}
				if r.IntN(2) == 0 {
					p.Sig = append(p.Sig, i32(sSize, 4646))
				}
				if r.IntN(3) == 0 {
					p.Sig = append(p.Sig, i64(270, 4747))
				}
				p.GenOpt, p.SigOpt = randHOpt(r, 63), randHOpt(r, 62)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				t.Seen("short x long kinds", fmt.Sprintf("%d/%d", ks, kl))
				judge := func(what string, got uint64, gerr error, s, l *HTag, limit uint64, lenient bool) {
					t.Event("size queries")
					if gerr != nil && got != 0 && int64(got) != -1 {
						t.Errorf("%s = %d with the error %v", what, got, gerr)
					}
					var want *HTag
					switch {
					case usable(l):
						want = l
					case usable(s):
						want = s
					}
					if want == nil {
						if gerr == nil {
							t.Errorf("%s = %d although no usable size is stored (short %v, long %v)", what, got, s, l)
						}
						return
					}
					v := intsOf(want)[0]
					if v > limit {
						if gerr == nil {
							t.Errorf("%s = %d for stored %d, which does not fit", what, got, v)
						}
						return
					}
					if gerr != nil {
						if lenient && l != nil && !usable(l) {
							return
						}
						t.Errorf("%s failed: %v (short %v, long %v)", what, gerr, s, l)
					} else if got != v {
						t.Errorf("%s = %d, stored %d (short %v, long %v)", what, got, v, s, l)
					}
				}
				g, err := hdr.GetUint64Fallback(gSize, gLongSize)
				judge("GetUint64Fallback(SIZE, LONGSIZE)", g, err, short, long, math.MaxUint64, false)
				g, err = hdr.GetUint64Fallback(sPayloadSize+sigBase, sLongArchiveSize)
				judge("GetUint64Fallback(SIG_PAYLOADSIZE, SIG_LONGARCHIVESIZE)", g, err, sshort, slong, math.MaxUint64, false)
				g, err = hdr.GetUint64Fallback(sPayloadSize+sigBase, sLongArchiveSize+sigBase)
				judge("GetUint64Fallback(SIG_PAYLOADSIZE, SIG_LONGARCHIVESIZE)", g, err, sshort, slong, math.MaxUint64, false)
				v, err := hdr.InstalledSize()
				judge("InstalledSize", uint64(v), err, short, long, math.MaxInt64, false)
				v, err = hdr.PayloadSize()
				judge("PayloadSize", uint64(v), err, sshort, slong, math.MaxInt64, true)
				for _, x := range []struct {
					q int
					h *HTag
				}{{gSize, short}, {gLongSize, long}, {sPayloadSize + sigBase, sshort}, {sLongArchiveSize, slong}} {
					checkInts(t, hdr, x.q, x.h)
				}
			}},
		},
	})
}
