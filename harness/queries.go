package main

// Queries of header objects, rendered as text for comparison.

import (
	"fmt"
	"math/rand/v2"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

type query struct {
	kind string
	tag  int
	tag2 int
}

func (q query) String() string { return fmt.Sprintf("%s(%d,%d)", q.kind, q.tag, q.tag2) }

var queryKinds = []string{"HasTag", "Get", "GetString", "GetStrings", "GetInt", "GetInts", "GetUint32", "GetUint32s", "GetUint64", "GetUint64s", "GetUint64Fallback", "GetBytes"}
var wholeKinds = []string{"GetNEVRA", "GetFiles", "InstalledSize", "PayloadSize", "IsSource", "GetRange", "OriginalSignatureHeaderSize"}

// ask runs the query and returns the value as it came.
func (q query) ask(hdr *rpmutils.RpmHeader) (v any, err error) {
	switch q.kind {
	case "HasTag":
		return hdr.HasTag(q.tag), nil
	case "Get":
		return hdr.Get(q.tag)
	case "GetString":
		return hdr.GetString(q.tag)
	case "GetStrings":
		return hdr.GetStrings(q.tag)
	case "GetInt":
		return hdr.GetInt(q.tag)
	case "GetInts":
		return hdr.GetInts(q.tag)
	case "GetUint32":
		return hdr.GetUint32(q.tag)
	case "GetUint32s":
		return hdr.GetUint32s(q.tag)
	case "GetUint64":
		return hdr.GetUint64(q.tag)
	case "GetUint64s":
		return hdr.GetUint64s(q.tag)
	case "GetUint64Fallback":
		return hdr.GetUint64Fallback(q.tag, q.tag2)
	case "GetBytes":
		return hdr.GetBytes(q.tag)
	case "GetNEVRA":
		return hdr.GetNEVRA()
	case "GetFiles":
		return hdr.GetFiles()
	case "InstalledSize":
		return hdr.InstalledSize()
	case "PayloadSize":
		return hdr.PayloadSize()
	case "IsSource":
		return hdr.IsSource(), nil
	case "GetRange":
		return hdr.GetRange(), nil
	case "OriginalSignatureHeaderSize":
		return hdr.OriginalSignatureHeaderSize(), nil
	}
	panic("query " + q.kind)
}

// render makes an answer comparable.
func render(v any, err error) string {
	if err != nil {
		return "error"
	}
	switch v := v.(type) {
	case *rpmutils.NEVRA:
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("%q %s", *v, v.String())
	case []rpmutils.FileInfo:
		var b strings.Builder
		fmt.Fprintf(&b, "%d files", len(v))
		for _, f := range v {
			b.WriteString(fileText(f))
		}
		return b.String()
	case []string:
		return fmt.Sprintf("%q", v)
	case []byte:
		return sum(v)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (q query) text(hdr *rpmutils.RpmHeader) string { return render(q.ask(hdr)) }

// queriesFor makes queries about tags a package has, and about others.
func queriesFor(r *rand.Rand, p *Pkg, k int) []query {
	var tags []int
	for _, h := range p.Gen {
		tags = append(tags, h.Tag)
	}
	for _, h := range p.Sig {
		tags = append(tags, queryNumber(h.Tag, true, r.IntN(2) == 0))
	}
	return queriesOver(r, tags, k)
}

func queriesOver(r *rand.Rand, tags []int, k int) []query {
	var out []query
	for len(out) < k {
		if r.IntN(4) == 0 {
			out = append(out, query{kind: wholeKinds[r.IntN(len(wholeKinds))]})
			continue
		}
		q := query{kind: queryKinds[r.IntN(len(queryKinds))]}
		pick := func() int {
			switch {
			case len(tags) > 0 && r.IntN(6) > 0:
				return tags[r.IntN(len(tags))]
			case r.IntN(2) == 0:
				return r.IntN(6000)
			}
			return sigBase + r.IntN(1100)
		}
		q.tag = pick()
		q.tag2 = pick()
		// padding is what a dump may change
		if (q.tag-sigBase == sReserved || q.tag2-sigBase == sReserved) || q.tag == sReserved && sReserved < 1000 {
			continue
		}
		out = append(out, q)
	}
	return out
}

// usefulQuery picks the kind of query that a tag's type calls for.
func usefulQueries(p *Pkg) []query {
	var out []query
	add := func(h HTag, tag int) {
		switch {
		case isIntType(h.Type):
			out = append(out, query{kind: "GetUint64s", tag: tag}, query{kind: "GetInts", tag: tag}, query{kind: "GetUint32s", tag: tag}, query{kind: "Get", tag: tag})
		case isStrType(h.Type):
			out = append(out, query{kind: "GetStrings", tag: tag}, query{kind: "Get", tag: tag}, query{kind: "GetString", tag: tag})
		default:
			out = append(out, query{kind: "GetBytes", tag: tag})
		}
	}
	for _, h := range p.Gen {
		add(h, h.Tag)
	}
	for _, h := range p.Sig {
		if h.Tag != sReserved {
			add(h, queryNumber(h.Tag, true, false))
		}
	}
	for _, k := range wholeKinds {
		out = append(out, query{kind: k})
	}
	return out
}
