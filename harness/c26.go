package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C26: querying a header has no side effects.

// scribble overwrites a list obtained from a query.
func scribble(v any) bool {
	switch v := v.(type) {
	case []string:
		for i := range v {
			v[i] = "scribble"
		}
		_ = append(v[:0:cap(v)], make([]string, cap(v))...)
	case []int:
		for i := range v {
			v[i] = -77
		}
		_ = append(v[:0:cap(v)], make([]int, cap(v))...)
	case []uint16:
		clear(v[:cap(v)])
	case []uint32:
		clear(v[:cap(v)])
	case []uint64:
		clear(v[:cap(v)])
	case []int32:
		clear(v[:cap(v)])
	default:
		return false
	}
	return true
}

// headerSources are the ways to obtain a header object.
var headerSources = []string{"ReadHeader", "ReadRpm", "Verify", "SignRpmStream", "SignRpmFile", "RewriteWithSignatures"}

func obtain(t *T, source string, data []byte) (*rpmutils.RpmHeader, *rpmutils.Rpm) {
	var hdr *rpmutils.RpmHeader
	var rpm *rpmutils.Rpm
	var err error
	switch source {
	case "ReadHeader":
		hdr, err = rpmutils.ReadHeader(bytes.NewReader(data))
	case "ReadRpm":
		if rpm, err = rpmutils.ReadRpm(bytes.NewReader(data)); err == nil {
			hdr = rpm.Header
		}
	case "Verify":
		hdr, _, err = rpmutils.Verify(bytes.NewReader(data), nil)
	case "SignRpmStream":
		hdr, err = rpmutils.SignRpmStream(bytes.NewReader(data), key("ed25519").Key, &rpmutils.SignatureOptions{CreationTime: time.Unix(1600000000, 0)})
	case "SignRpmFile", "RewriteWithSignatures":
		in := filepath.Join(t.caseDir, "in.rpm")
		t.must(os.WriteFile(in, data, 0o644))
		f, err2 := os.Open(in)
		t.must(err2)
		defer f.Close()
		out := filepath.Join(t.caseDir, "out.rpm")
		if source == "SignRpmFile" {
			hdr, err = rpmutils.SignRpmFile(f, out, key("ed25519").Key, &rpmutils.SignatureOptions{CreationTime: time.Unix(1600000000, 0)})
		} else {
			hdr, err = rpmutils.RewriteWithSignatures(f, out, []byte("one"), []byte("two"))
		}
	}
	if err != nil {
		t.Fatalf("%s: %v", source, err)
	}
	return hdr, rpm
}

func init() {
	register(&Check{
		ID:          "C26",
		Rule:        "each case is a package, a way to obtain its header object, and a random history of queries, file listings, dumps, payload iterations and uses of other packages on one object, in which lists that were returned are overwritten; every answer is compared with that of an object that was never asked anything else; distinct by package, source and history",
		Require:     map[string]int64{"answers compared": 40000, "lists overwritten": 8000, "dumps compared": 3000, "other packages used": 1000, "large headers": 40},
		Assumptions: []string{"binary values (BIN tags) and the reserved space are left out, as the property says"},
		Groups: []Group{
			{Name: "histories", N: n(2000, 40000), Run: func(t *T, i int) {
				r := t.R
				var p *Pkg
				comp := ""
				if i%3 == 0 {
					p = signablePkg(r)
				} else {
					comp = []string{"", "gzip", "xz", "zstd"}[r.IntN(4)]
					p = genPkg(r, PkgOpt{MaxFiles: 10, Compressor: comp, Stripped: r.IntN(4) == 0})
				}
				for k := r.IntN(8); k > 0; k-- {
					tag := randTagNumber(r, false)
					if findTag(p.Gen, tag) == nil {
						p.Gen = append(p.Gen, randHTag(r, tag))
					}
				}
				if i%40 == 7 { // large
					big := []int{300, 1500, 6000}[i/40%3]
					p.Sig = append(p.Sig, manyTags(r, big)...)
					for k := 0; k < big; k++ {
						if h := randHTag(r, 1140+k); findTag(p.Gen[:min(len(p.Gen), 60)], h.Tag) == nil && h.Tag < 5000 {
							p.Gen = append(p.Gen, h)
						}
					}
					t.Event("large headers")
				}
				p.Finish(r)
				data := p.Bytes()
				other := genPkg(r, PkgOpt{MaxFiles: 5}).Bytes()
				source := headerSources[r.IntN(len(headerSources))]
				if source == "Verify" {
					// leftovers that are no valid signatures
					if _, _, err := rpmutils.Verify(bytes.NewReader(data), nil); err != nil {
						source = "ReadHeader"
					}
				}
				hdr, rpm := obtain(t, source, data)
				qs := append(usefulQueries(p), queriesFor(r, p, 30)...)
				t.Sig(data, source, fmt.Sprint(qs))
				var history []string
				fail := func(what, want, got string) {
					a, b := firstDiff(want, got)
					t.Errorf("%s on the object of %s: %q, but %q on an untouched object; history: %s", what, source, b, a, strings.Join(history, " "))
				}
				var lists [][]rpmutils.FileInfo
				wantFiles := ""
				for k := 0; k < 120 && len(t.failed) == 0; k++ {
					op := r.IntN(20)
					switch {
					case op < 14:
						q := qs[r.IntN(len(qs))]
						fresh, _ := obtain(t, source, data)
						want := q.text(fresh)
						v, err := q.ask(hdr)
						if got := render(v, err); got != want {
							fail(q.String(), want, got)
						}
						history = append(history, q.String())
						t.Event("answers compared")
						if b, ok := v.([]uint8); ok && r.IntN(2) == 0 {
							// a list of small integers, unless it is a binary value
							if _, err := fresh.GetBytes(q.tag); err != nil {
								clear(b[:cap(b)])
								history = append(history, "(overwritten)")
								t.Event("lists overwritten")
							}
						}
						if r.IntN(2) == 0 && err == nil && scribble(v) {
							history = append(history, "(overwritten)")
							t.Event("lists overwritten")
						}
						if fl, ok := v.([]rpmutils.FileInfo); ok && err == nil {
							lists = append(lists, fl)
							wantFiles = want
						}
					case op < 16:
						same := r.IntN(2) == 0
						fresh, _ := obtain(t, source, data)
						want, err1 := fresh.DumpSignatureHeader(same)
						got, err2 := hdr.DumpSignatureHeader(same)
						if !bytes.Equal(want, got) || (err1 == nil) != (err2 == nil) {
							fail(fmt.Sprintf("DumpSignatureHeader(%v)", same), fmt.Sprintf("%x %v", want, err1), fmt.Sprintf("%x %v", got, err2))
						}
						history = append(history, fmt.Sprintf("Dump(%v)", same))
						t.Event("dumps compared")
					case op == 16 && rpm != nil:
						// the payload can be used once; what it gives is judged elsewhere
						if pr, err := rpm.PayloadReaderExtended(); err == nil {
							for {
								if _, err := pr.Next(); err != nil {
									break
								}
								_, _ = io.CopyN(io.Discard, pr, int64(r.IntN(2000)))
							}
						}
						history = append(history, "iterate")
						t.Event("payloads iterated")
					case op == 17:
						oh, _ := obtain(t, headerSources[r.IntN(len(headerSources))], other)
						_, _ = oh.GetFiles()
						_, _ = oh.GetNEVRA()
						_, _ = oh.DumpSignatureHeader(true)
						history = append(history, "(another package)")
						t.Event("other packages used")
					case op == 18:
						_, _, _ = rpmutils.Verify(bytes.NewReader(data), ring("rsaA"))
						history = append(history, "(verified elsewhere)")
						t.Event("other packages used")
					default: // file lists handed out before
						for _, fl := range lists {
							if got := render(fl, nil); got != wantFiles {
								fail("earlier file list", wantFiles, got)
							}
							t.Event("file lists looked at again")
						}
					}
				}
				t.Seen("source", source)
				t.Sample(map[string]any{"source": source, "history": strings.Join(history[:min(8, len(history))], " ")})
			}},
		},
	})
}
