package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C20: dumped signature headers are well formed and lossless.

// tightSize is the size of lead and signature header when the tags are written
// in order, aligned, with a region and without reserved space.
func tightSize(tags []HTag) int {
	tags = dropTags(tags, sReserved)
	sort.SliceStable(tags, func(i, j int) bool { return tags[i].Tag < tags[j].Tag })
	k := 0
	for _, h := range tags {
		if a := dataAlign[h.Type]; a > 0 {
			k = (k + a - 1) / a * a
		}
		k += len(h.Data)
	}
	return 96 + (16+16*(len(tags)+1)+k+16+7)/8*8
}

// checkDump judges one dump. want are the tags it has to carry.
func checkDump(t *T, what string, blob []byte, err error, orig []byte, want []HTag, same bool) {
	if err != nil {
		t.Errorf("%s: %v", what, err)
		return
	}
	t.Event("dumps checked")
	a, perr := parsePkg(orig)
	t.must(perr)
	if len(blob) < 112 || !bytes.Equal(blob[:96], a.Lead) {
		t.Errorf("%s: lead differs", what)
		return
	}
	h, perr := parseHeader(blob[96:], true)
	if perr != nil {
		t.Errorf("%s: not a header: %v", what, perr)
		return
	}
	if 96+h.Size != len(blob) || len(blob)%8 != 0 {
		t.Errorf("%s: header of %d bytes in a dump of %d", what, h.Size, len(blob)-96)
	}
	if err := wellFormedSig(h); err != nil {
		t.Errorf("%s: %v", what, err)
	}
	// a header of the same tags
	wanted := &refHdr{}
	for _, w := range want {
		wanted.Ents = append(wanted.Ents, refEnt{Tag: w.Tag, Type: w.Type, Count: w.Count, Data: w.Data})
	}
	if err := sigTagsEqual(wanted, h); err != nil {
		t.Errorf("%s: %v", what, err)
	}
	if e := h.get(sReserved); e != nil && (e.Type != tBin || !same) {
		t.Errorf("%s: reserved space of type %d, %d values", what, e.Type, e.Count)
	}
	tight, avail := tightSize(want), len(a.SigRaw)+96
	switch {
	case !same:
		if len(blob) > tight {
			t.Errorf("%s: %d bytes, %d suffice", what, len(blob), tight)
		}
	case tight == avail || tight+16 <= avail:
		if len(blob) != avail {
			t.Errorf("%s: %d bytes, originally %d, and the content takes %d", what, len(blob), avail, tight)
		}
		t.Event("dumps of the original size")
		if tight != avail {
			t.Event("dumps with reserved space")
		}
	default: // does not fit, or no room for a reserved entry
		if len(blob) > max(tight, avail) {
			t.Errorf("%s: %d bytes, %d suffice", what, len(blob), tight)
		}
		t.Event("dumps that do not fit")
	}
	// with the rest of the file it is a package again
	out := append(append([]byte{}, blob...), orig[avail:]...)
	hdr, err := rpmutils.ReadHeader(bytes.NewReader(out))
	if err != nil {
		t.Errorf("%s: does not read back: %v", what, err)
		return
	}
	gen := tagsFromRef(a.Gen)
	for i := range want {
		w := &want[i]
		if w.Tag == sReserved || w.Tag >= sigBase {
			continue
		}
		checkTag(t, hdr, w.Tag+sigBase, w)
		if w.Tag < 1000 {
			checkTag(t, hdr, w.Tag, w)
		}
	}
	for i := range gen {
		if g := &gen[i]; g.Tag >= 1000 && g.Tag <= sigBase {
			checkTag(t, hdr, g.Tag, g)
		}
	}
	if rg := hdr.GetRange(); rg.Start != len(blob) || rg.End-rg.Start != len(a.GenRaw) {
		t.Errorf("%s: read back with range %+v", what, rg)
	}
}

// signedTags is the signature header after signing.
func signedTags(p *Pkg, hdr *rpmutils.RpmHeader, t *T) []HTag {
	want := dropTags(p.Sig, sRSA, sPGP, sDSA, sGPG)
	for _, tag := range []int{sRSA, sPGP} {
		b, err := hdr.GetBytes(tag + sigBase)
		if err != nil {
			t.Errorf("signature %d: %v", tag, err)
		}
		want = append(want, bin(tag, b))
	}
	return want
}

// dumpPlan is a sequence of dump requests.
func dumpPlan(r *rand.Rand) []bool {
	out := []bool{}
	for k := 2 + r.IntN(5); k > 0; k-- {
		out = append(out, r.IntN(2) == 0)
	}
	return out
}

func init() {
	register(&Check{
		ID:      "C20",
		Rule:    "each case is a package with arbitrary signature-header tags (all types, counts, alignments, layouts, reserved space of any size or none) whose header is dumped in random sequences of same-size and tight requests, freshly read, after verification or after signing; every dump is taken apart by a strict independent parser and, put in front of the rest of the file, read back; distinct by package bytes and sequence",
		Require: map[string]int64{"dumps checked": 3000, "dumps of the original size": 1500, "dumps with reserved space": 1000, "dumps that do not fit": 500, "dumps of many entries": 16, "large values": 2},
		Assumptions: []string{"tags below 64 are regions and are replaced by the dump's own; a difference of exactly 8 bytes cannot be absorbed, as a reserved-space entry takes 16",
			"no tag occurs twice in the original"},
		Groups: []Group{
			{Name: "arbitrary tags", N: n(2400, 40000), Run: func(t *T, i int) {
				r := t.R
				p := randTagPkg(r)
				if r.IntN(3) > 0 {
					p.Sig = append(dropTags(p.Sig, sReserved), bin(sReserved, make([]byte, []int{0, 1, 5, 8, 16, 24, 32, 100, 1000, 4128}[r.IntN(10)])))
				}
				if r.IntN(4) == 0 { // beyond what can be asked for
					p.Sig = append(p.Sig, randHTag(r, sigBase+r.IntN(100000)))
				}
				p.FinishSig(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("intact package: %v", err)
				}
				for k, same := range dumpPlan(r) {
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("dump %d (same size %v)", k, same), blob, err, data, p.Sig, same)
				}
				for _, h := range p.Sig {
					t.Seen("type and size residue", fmt.Sprintf("%d/%d", h.Type, len(h.Data)%8))
				}
				t.Sample(map[string]any{"tags": len(p.Sig), "size": len(p.SigBytes)})
			}},
			{Name: "room for everything", N: n(900, 10000), Run: func(t *T, i int) {
				// the original is larger than needed by every small amount
				r := t.R
				p := randTagPkg(r)
				p.Sig = dropTags(p.Sig, sReserved)
				p.SigOpt = HOpt{Region: 62}
				if i%2 == 0 {
					p.SigOpt.TailPad = i / 2 % 75
				} else {
					p.Sig = append(p.Sig, bin(sReserved, make([]byte, i/2%75)))
				}
				p.FinishSig(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("intact package: %v", err)
				}
				t.Seen("bytes to spare", fmt.Sprint(96+len(p.SigBytes)-tightSize(p.Sig)))
				for k, same := range []bool{true, false, true, true} {
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("dump %d (same size %v)", k, same), blob, err, data, p.Sig, same)
				}
			}},
			{Name: "many entries", N: n(16, 200), Run: func(t *T, i int) {
				r := t.R
				p := randTagPkg(r)
				k := []int{2040, 2100, 4100, 9000, 33000, 66000, 10, 300}[i%8]
				p.Sig = dropTags(p.Sig, sReserved)
				p.Sig = append(p.Sig, manyTags(r, k+r.IntN(20))...)
				sort.SliceStable(p.Sig, func(i, j int) bool { return p.Sig[i].Tag < p.Sig[j].Tag })
				for j := range p.Sig { // some of them large
					if h := &p.Sig[j]; k < 1000 && h.Type == tBin && r.IntN(5) == 0 {
						*h = bin(h.Tag, randContent(r, []int{32767, 32768, 65535, 65536, 100000, 1 << 20, 3 << 20, 17 << 20}[r.IntN(8)]))
						t.Event("large values")
					}
				}
				if r.IntN(3) > 0 {
					p.Sig = append(p.Sig, bin(sReserved, make([]byte, []int{0, 16, 1000, 70000, 1<<20 + 77, 5 << 20}[r.IntN(6)])))
				}
				p.SigOpt.Share = false
				p.FinishSig(r)
				data := p.Bytes()
				t.Sig(data)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("intact package: %v", err)
				}
				for j, same := range dumpPlan(r) {
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("%d tags, dump %d (same size %v)", len(p.Sig), j, same), blob, err, data, p.Sig, same)
				}
				t.Event("dumps of many entries")
				t.Sample(map[string]any{"tags": len(p.Sig), "size": len(p.SigBytes)})
			}},
			{Name: "signed", N: n(1500, 20000), Run: func(t *T, i int) {
				r := t.R
				p := signablePkg(r)
				data := p.Bytes()
				t.Sig(data)
				var hdr *rpmutils.RpmHeader
				var err error
				how := ""
				switch i % 4 {
				case 0, 1:
					how = "SignRpmStream"
					hdr, err = rpmutils.SignRpmStream(bytes.NewReader(data), key(keyNames[r.IntN(len(keyNames))]).Key, nil)
				case 2:
					how = "SignRpmFile"
					dir := t.Dir()
					in := filepath.Join(dir, "in.rpm")
					t.must(os.WriteFile(in, data, 0o644))
					f, ferr := os.Open(in)
					t.must(ferr)
					hdr, err = rpmutils.SignRpmFile(f, []string{in, filepath.Join(dir, "out.rpm")}[r.IntN(2)], key(keyNames[r.IntN(len(keyNames))]).Key, nil)
					f.Close()
				case 3:
					how = "RewriteWithSignatures"
					dir := t.Dir()
					in := filepath.Join(dir, "in.rpm")
					t.must(os.WriteFile(in, data, 0o644))
					f, ferr := os.Open(in)
					t.must(ferr)
					hdr, err = rpmutils.RewriteWithSignatures(f, []string{in, filepath.Join(dir, "out.rpm")}[r.IntN(2)], randContent(r, r.IntN(1500)), randContent(r, r.IntN(700)))
					f.Close()
				}
				if err != nil {
					t.Fatalf("%s: %v", how, err)
				}
				want := signedTags(p, hdr, t)
				for k, same := range dumpPlan(r) {
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("%s, dump %d (same size %v)", how, k, same), blob, err, data, want, same)
				}
				t.Event("dumps after signing")
			}},
			{Name: "verified", N: n(360, 5000), Run: func(t *T, i int) {
				r := t.R
				p := sealed(r, 1+r.IntN(200), i%len(sealKinds), keyNames)
				data := p.Bytes()
				t.Sig(data)
				hdr, _, err := rpmutils.Verify(bytes.NewReader(data), ring(keyNames...))
				if err != nil {
					t.Fatalf("Verify: %v", err)
				}
				for k, same := range dumpPlan(r) {
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("verified, dump %d (same size %v)", k, same), blob, err, data, p.Sig, same)
				}
			}},
			{Name: "repeated", N: n(80, 3000), Run: func(t *T, i int) {
				// a dumped package is dumped again: nothing changes any more
				r := t.R
				p := randTagPkg(r)
				p.FinishSig(r)
				data := p.Bytes()
				t.Sig(data)
				for k, same := range dumpPlan(r) {
					hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
					if err != nil {
						t.Fatalf("round %d: %v", k, err)
					}
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("round %d (same size %v)", k, same), blob, err, data, p.Sig, same)
					if err != nil {
						return
					}
					data = splice(data, hdr, blob)
				}
			}},
			{Name: "real packages", N: func(string) int { return len(fixtureRpms()) }, Run: func(t *T, i int) {
				name := fixtureRpms()[i]
				data := fixture(name)
				t.Sig(name)
				p, err := parsePkg(data)
				t.must(err)
				hdr, err := rpmutils.ReadHeader(bytes.NewReader(data))
				if err != nil {
					t.Fatalf("%s: %v", name, err)
				}
				for _, same := range []bool{true, false, true} {
					blob, err := hdr.DumpSignatureHeader(same)
					checkDump(t, fmt.Sprintf("%s (same size %v)", name, same), blob, err, data, tagsFromRef(p.Sig), same)
				}
			}},
		},
	})
}
