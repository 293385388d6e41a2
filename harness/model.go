package main

// The model of tag queries: what each accessor must answer for a stored tag.

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// queryNumber is the number under which a raw tag is asked for.
func queryNumber(raw int, sig bool, alt bool) int {
	if !sig {
		return raw
	}
	if raw < 1000 && !alt {
		return raw
	}
	return raw + sigBase
}

func isIntType(typ int) bool { return typ >= tChar && typ <= tInt64 }
func isStrType(typ int) bool { return typ == tString || typ == tStrArr || typ == tI18N }

// intsOf gives the stored numbers of an integer tag.
func intsOf(h *HTag) []uint64 {
	var out []uint64
	switch v := h.Val.(type) {
	case []uint8:
		for _, x := range v {
			out = append(out, uint64(x))
		}
	case []uint16:
		for _, x := range v {
			out = append(out, uint64(x))
		}
	case []uint32:
		for _, x := range v {
			out = append(out, uint64(x))
		}
	case []uint64:
		out = append(out, v...)
	}
	return out
}

// absentErr checks the error for a tag that is not there.
func absentErr(err error, query int) string {
	var e rpmutils.NoSuchTagError
	if !errors.As(err, &e) {
		return fmt.Sprintf("error %T (%v) is not a NoSuchTagError", err, err)
	}
	if e.Tag != query && e.Tag != query-sigBase && query != gOldFilenames && query != gOldFilenames+sigBase {
		return fmt.Sprintf("NoSuchTagError names tag %d", e.Tag)
	}
	return ""
}

type intsRes struct {
	vals []uint64
	err  error
	neg  bool
}

// intQueries runs all list and single integer queries.
func intQueries(hdr *rpmutils.RpmHeader, q int) (list, single map[string]intsRes) {
	list, single = map[string]intsRes{}, map[string]intsRes{}
	{
		v, err := hdr.GetInts(q)
		r := intsRes{err: err}
		for _, x := range v {
			r.vals = append(r.vals, uint64(x))
			r.neg = r.neg || x < 0
		}
		list["GetInts"] = r
	}
	{
		v, err := hdr.GetUint32s(q)
		r := intsRes{err: err}
		for _, x := range v {
			r.vals = append(r.vals, uint64(x))
		}
		list["GetUint32s"] = r
	}
	{
		v, err := hdr.GetUint64s(q)
		list["GetUint64s"] = intsRes{vals: append([]uint64(nil), v...), err: err}
	}
	{
		v, err := hdr.GetInt(q)
		single["GetInt"] = intsRes{vals: []uint64{uint64(v)}, err: err, neg: v < 0}
	}
	{
		v, err := hdr.GetUint32(q)
		single["GetUint32"] = intsRes{vals: []uint64{uint64(v)}, err: err}
	}
	{
		v, err := hdr.GetUint64(q)
		single["GetUint64"] = intsRes{vals: []uint64{v}, err: err}
	}
	return
}

// mustInt says whether an integer query has to succeed for the stored tag.
func mustInt(query string, h *HTag, vals []uint64) bool {
	switch query {
	case "GetUint64s", "GetUint64":
		return true
	case "GetUint32s", "GetUint32":
		return h.Type != tInt64
	case "GetInts", "GetInt":
		if h.Type == tInt64 {
			return false
		}
		for _, v := range vals {
			if v > math.MaxInt32 {
				return false
			}
		}
		return true
	}
	return false
}

func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkInts compares all integer queries on a tag (nil if absent) to the model.
func checkInts(t *T, hdr *rpmutils.RpmHeader, q int, h *HTag) {
	list, single := intQueries(hdr, q)
	var vals []uint64
	isInt := h != nil && isIntType(h.Type)
	if isInt {
		vals = intsOf(h)
	}
	for name, r := range list {
		t.Event("integer queries")
		if r.err != nil && len(r.vals) > 0 {
			t.Errorf("%s(%d) returns %v and the error %v", name, q, clipVals(r.vals), r.err)
		}
		switch {
		case h == nil:
			if r.err == nil {
				t.Errorf("%s(%d) = %v for an absent tag", name, q, r.vals)
			} else if m := absentErr(r.err, q); m != "" {
				t.Errorf("%s(%d) for an absent tag: %s", name, q, m)
			}
		case !isInt:
			if r.err == nil {
				t.Errorf("%s(%d) = %v for a tag of type %d", name, q, r.vals, h.Type)
			}
		case r.err != nil:
			t.Event("integer queries refused")
			if mustInt(name, h, vals) {
				t.Errorf("%s(%d) type %d values %v: %v", name, q, h.Type, clipVals(vals), r.err)
			}
		case r.neg || !eqU64(r.vals, vals):
			t.Errorf("%s(%d) type %d: got %v, stored %v", name, q, h.Type, clipVals(r.vals), clipVals(vals))
		}
	}
	for name, r := range single {
		t.Event("integer queries")
		if want := map[bool]int{true: -1}[name == "GetInt"]; r.err != nil && r.vals[0] != uint64(want) {
			t.Errorf("%s(%d) returns %d with the error %v", name, q, r.vals[0], r.err)
		}
		switch {
		case h == nil:
			if r.err == nil {
				t.Errorf("%s(%d) = %v for an absent tag", name, q, r.vals)
			} else if m := absentErr(r.err, q); m != "" {
				t.Errorf("%s(%d) for an absent tag: %s", name, q, m)
			}
		case !isInt || len(vals) != 1:
			if r.err == nil {
				t.Errorf("%s(%d) = %v for a tag of type %d with %d values", name, q, r.vals, h.Type, h.Count)
			}
		case r.err != nil:
			t.Event("integer queries refused")
			if mustInt(name, h, vals) {
				t.Errorf("%s(%d) type %d value %v: %v", name, q, h.Type, vals, r.err)
			}
		case r.neg || r.vals[0] != vals[0]:
			t.Errorf("%s(%d) type %d: got %v, stored %v", name, q, h.Type, r.vals, vals)
		}
	}
}

func clipVals(v []uint64) []uint64 { return v[:min(len(v), 12)] }

// checkTag compares every query on a tag with the model (h nil: absent).
func checkTag(t *T, hdr *rpmutils.RpmHeader, q int, h *HTag) {
	if got := hdr.HasTag(q); got != (h != nil) {
		t.Errorf("HasTag(%d) = %v", q, got)
	}
	checkInts(t, hdr, q, h)
	g, gerr := hdr.Get(q)
	ss, sserr := hdr.GetStrings(q)
	s, serr := hdr.GetString(q)
	b, berr := hdr.GetBytes(q)
	t.Event("value queries", 5)
	if h == nil {
		for name, err := range map[string]error{"Get": gerr, "GetStrings": sserr, "GetString": serr, "GetBytes": berr} {
			if err == nil {
				t.Errorf("%s(%d) succeeded for an absent tag", name, q)
			} else if m := absentErr(err, q); m != "" {
				t.Errorf("%s(%d) for an absent tag: %s", name, q, m)
			}
		}
		t.Event("absent tags")
		return
	}
	t.Seen("stored type/count class", fmt.Sprintf("%d/%d", h.Type, min(h.Count, 3)))
	switch {
	case isStrType(h.Type):
		want := h.Val.([]string)
		if sserr != nil || !eqStrs(ss, want) {
			t.Errorf("GetStrings(%d) = %.300q, %v; stored %.300q", q, ss, sserr, want)
		}
		if len(want) == 1 {
			if serr != nil || s != want[0] {
				t.Errorf("GetString(%d) = %.100q, %v; stored %.100q", q, s, serr, want)
			}
		} else if serr == nil {
			t.Errorf("GetString(%d) = %.100q for %d values", q, s, len(want))
		}
		if gs, ok := g.([]string); gerr != nil || !ok || !eqStrs(gs, want) {
			t.Errorf("Get(%d) = %.300v, %v; stored %.300q", q, g, gerr, want)
		}
		if berr == nil {
			t.Errorf("GetBytes(%d) = %.50x for type %d", q, b, h.Type)
		}
	case h.Type == tBin:
		want := h.Val.([]byte)
		if berr != nil || !bytes.Equal(b, want) {
			t.Errorf("GetBytes(%d) = %.100x, %v; stored %.100x", q, b, berr, want)
		}
		if gb, ok := g.([]byte); gerr != nil || !ok || !bytes.Equal(gb, want) {
			t.Errorf("Get(%d) = %.100v, %v; stored %.100x", q, g, gerr, want)
		}
		if sserr == nil || serr == nil {
			t.Errorf("GetStrings(%d) = %.100q for binary data", q, ss)
		}
	case isIntType(h.Type):
		if gerr != nil || reflect.TypeOf(g) != reflect.TypeOf(h.Val) ||
			reflect.ValueOf(g).Len() != reflect.ValueOf(h.Val).Len() ||
			(reflect.ValueOf(g).Len() > 0 && !reflect.DeepEqual(g, h.Val)) {
			t.Errorf("Get(%d) = %T %.200v, %v; stored %T %.200v", q, g, g, gerr, h.Val, h.Val)
		}
		if sserr == nil || serr == nil {
			t.Errorf("GetStrings(%d) = %.100q for type %d", q, ss, h.Type)
		}
		if berr == nil {
			t.Errorf("GetBytes(%d) = %.50x for type %d", q, b, h.Type)
		}
	default:
		if sserr == nil || serr == nil || berr == nil {
			t.Errorf("a value of tag %d of type %d was returned", q, h.Type)
		}
	}
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
