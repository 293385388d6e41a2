package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C28: what is not well formed is refused.

// breakHeader damages a header in a way that no reader can accept.
func breakHeader(r *rand.Rand, hb []byte) ([]byte, string) {
	b := append([]byte{}, hb...)
	entries, size := int(binary.BigEndian.Uint32(b[8:])), int(binary.BigEndian.Uint32(b[12:]))
	if entries == 0 || r.IntN(6) == 0 {
		k := r.IntN(4)
		b[k] ^= byte(1 + r.IntN(255))
		return b, fmt.Sprintf("header magic byte %d", k)
	}
	e := b[16+16*r.IntN(entries):][:16]
	typ := int(binary.BigEndian.Uint32(e[4:]))
	off, count := e[8:12], e[12:16]
	start := int(binary.BigEndian.Uint32(off))
	put := func(f []byte, v int64) { binary.BigEndian.PutUint32(f, uint32(v)) }
	switch k := r.IntN(5); k {
	case 0:
		put(off, []int64{-1, -2, -16, -1 << 31, -1 << 16}[r.IntN(5)])
		return b, "negative offset"
	case 1:
		// a signature header's padding may count as data
		put(off, []int64{int64(size) + 8, int64(size) + 9, int64(size) + int64(r.IntN(1<<20)) + 8, 1<<31 - 1, 1 << 30}[r.IntN(5)])
		return b, "offset beyond the data"
	case 2:
		put(count, []int64{-1, -2, -1 << 31, -1 << 16}[r.IntN(4)])
		return b, "negative count"
	default:
		if typ == tString || typ == tStrArr || typ == tI18N {
			if n := int64(bytes.Count(b[16+16*entries+start:], []byte{0})); r.IntN(3) == 0 {
				put(count, n+1)
				return b, "one string too many"
			} else if at := 16 + 16*entries + size; r.IntN(3) > 0 && n > 0 && len(b) == at {
				// a last string that never ends
				for at--; at >= 16+16*entries && b[at] == 0; at-- {
					b[at] = 'x'
				}
				put(count, int64(bytes.Count(b[16+16*entries+start:], []byte{0}))+1)
				return b, "unterminated string"
			}
		}
		if typ == 0 {
			put(count, -1)
			return b, "negative count"
		}
		unit := map[int]int{tInt16: 2, tInt32: 4, tInt64: 8}[typ]
		least := int64(size-start) + 8 // strings take a byte each at least
		what := "strings run past the end"
		if unit > 0 {
			least = (int64(size-start)+7)/int64(unit) + 1
			what = "integers run past the end"
		} else if typ <= tInt8 || typ == tBin {
			what = "bytes run past the end"
		}
		put(count, []int64{least, least, least + 1, least + int64(r.IntN(1000)), 1<<31 - 1, 1 << 30, 1 << 28, 1<<29 + 1}[r.IntN(8)])
		return b, what
	}
}

// refusedHeaders expects all readers of packages to refuse one.
func refusedHeaders(t *T, what string, data []byte) {
	r := t.R
	rd := func() io.Reader { return &fragReader{data: data, r: r, style: r.IntN(fragStyles)} }
	if hdr, err := rpmutils.ReadHeader(rd()); err == nil {
		t.Errorf("ReadHeader accepts: %s", what)
	} else if hdr != nil {
		t.Errorf("ReadHeader returns a header and an error: %s", what)
	}
	if rpm, err := rpmutils.ReadRpm(rd()); err == nil {
		t.Errorf("ReadRpm accepts: %s", what)
	} else if rpm != nil {
		t.Errorf("ReadRpm returns a package and an error: %s", what)
	}
	if hdr, sigs, err := rpmutils.Verify(rd(), nil); err == nil {
		t.Errorf("Verify accepts: %s", what)
	} else if hdr != nil || len(sigs) > 0 {
		t.Errorf("Verify returns results and an error: %s", what)
	}
	opts := &rpmutils.SignatureOptions{CreationTime: time.Unix(1600000000, 0)}
	if hdr, err := rpmutils.SignRpmStream(rd(), key("p256").Key, opts); err == nil {
		t.Errorf("SignRpmStream accepts: %s", what)
	} else if hdr != nil {
		t.Errorf("SignRpmStream returns a header and an error: %s", what)
	}
	dir := t.Dir()
	in := filepath.Join(dir, "in.rpm")
	t.must(os.WriteFile(in, data, 0o644))
	for k, route := range []string{"SignRpmFile", "RewriteWithSignatures"} {
		f, err := os.Open(in)
		t.must(err)
		out := []string{in, filepath.Join(dir, "out.rpm")}[r.IntN(2)]
		if k == 0 {
			_, err = rpmutils.SignRpmFile(f, out, key("p256").Key, opts)
		} else {
			_, err = rpmutils.RewriteWithSignatures(f, out, []byte("one"), []byte("two"))
		}
		f.Close()
		if err == nil {
			t.Errorf("%s accepts: %s", route, what)
		}
		if got, err := os.ReadFile(in); err != nil || !bytes.Equal(got, data) {
			t.Errorf("%s changes its input: %s", route, what)
		}
		if list, err := os.ReadDir(dir); err != nil || len(list) != 1 {
			t.Errorf("%s leaves %d files: %s", route, len(list), what)
		}
	}
	t.Event("malformed packages refused")
}

// breakCpio damages the header of the entry that starts at the given offset.
func breakCpio(r *rand.Rand, b []byte, at int, stripped bool, files int) string {
	fields := 13
	if stripped {
		fields = 1
	}
	switch k := r.IntN(6); {
	case k < 2:
		for {
			magic := []byte("070701")
			if stripped {
				magic[5] = 'X'
			}
			if k == 0 {
				magic[r.IntN(6)] ^= byte(1 << r.IntN(8))
			} else {
				copy(magic, []string{"070707", "07070x", "07070Y", "\x00\x00\x00\x00\x00\x00", "TRAILE", "\xc7\x71\x00\x00\x00\x00", "070700", "070703", "707010"}[r.IntN(9)])
			}
			switch string(magic) {
			case "070701", "07070X", "070702": // the last one is a newc variant
				continue
			}
			copy(b[at:], magic)
			return fmt.Sprintf("magic %q", magic)
		}
	case k == 2 && stripped:
		v := []uint32{uint32(files), uint32(files) + 1, uint32(files) + 256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.IntN(7)]
		copy(b[at+6:], fmt.Sprintf("%08x", v))
		return fmt.Sprintf("index %d of %d files", v, files)
	case k == 2:
		copy(b[at+6+8*cNameSize:], "00000000")
		return "no name"
	default:
		f, p := r.IntN(fields), r.IntN(8)
		c := "gGhzxXoO_-+ .,:@/`\x00\n\t\x7f\x80\xff"[r.IntN(24)]
		b[at+6+8*f+p] = c
		return fmt.Sprintf("%q at digit %d of field %d", c, p, f)
	}
}

func init() {
	register(&Check{
		ID:   "C28",
		Rule: "each case is an intact package, payload or archive, which is accepted, in which one thing is damaged such that it cannot be right (magics, tag offsets and counts, signature packets, payload format and compressor, fields and magics of archive entries, file types): every operation that reads it must return an error, no result along with it, and nothing from behind the damage; distinct by bytes",
		Assumptions: []string{
			"digests are recomputed, so that they do not give the damage away; padding of the signature header may count as data",
			"whether the checksummed newc variant (070702) is read is not judged",
		},
		Require: map[string]int64{"malformed packages refused": 1500, "malformed signatures refused": 800, "payloads refused": 400, "archives refused": 2000, "intact controls accepted": 2000},
		Groups: []Group{
			{Name: "headers", N: n(10000, 60000), Run: func(t *T, i int) {
				r := t.R
				d := randDigests(r)
				p := genPkg(r, PkgOpt{Digests: &d, RawPayload: 1 + r.IntN(300)})
				if _, err := rpmutils.ReadHeader(bytes.NewReader(p.Bytes())); err != nil {
					t.Internal("an intact package is refused: %v", err)
					return
				}
				t.Event("intact controls accepted")
				var what string
				switch i % 5 {
				case 0:
					k := r.IntN(4)
					p.Lead[k] ^= byte(1 + r.IntN(255))
					what = fmt.Sprintf("lead magic byte %d", k)
				case 1, 2:
					p.SigBytes, what = breakHeader(r, p.SigBytes)
					what = "signature header: " + what
				default:
					p.GenBytes, what = breakHeader(r, p.GenBytes)
					p.FinishSig(r)
					what = "general header: " + what
				}
				t.Sig(p.Bytes())
				t.Seen("damage", what[:min(len(what), 40)])
				refusedHeaders(t, what, p.Bytes())
				t.Sample(map[string]any{"damage": what, "bytes": len(p.Bytes())})
			}},
			{Name: "signatures", N: n(4000, 30000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(300)})
				tag := []int{sRSA, sDSA, sPGP, sGPG}[i%4]
				m := &madeSig{tag: tag, key: keyNames[r.IntN(len(keyNames))], hash: strongHashes[r.IntN(len(strongHashes))], at: time.Unix(1500000000, 0)}
				if m.headerOnly() {
					m.sign(p.GenBytes)
				} else {
					m.sign(p.GenBytes, p.Payload)
				}
				set := func(h HTag) []byte {
					p.Sig = append(dropTags(p.Sig, sRSA, sDSA, sPGP, sGPG), h)
					p.FinishSig(r)
					return p.Bytes()
				}
				ok := set(bin(tag, m.blob))
				if _, sigs, err := rpmutils.Verify(bytes.NewReader(ok), ring(m.key)); err != nil || len(sigs) != 1 {
					t.Internal("an intact package does not verify: %d signatures, %v", len(sigs), err)
					return
				}
				t.Event("intact controls accepted")
				var h HTag
				var what string
				var want error
				switch i / 4 % 9 {
				case 0:
					h, what = bin(tag, nil), "empty"
				case 1:
					h, what = bin(tag, m.blob[:r.IntN(len(m.blob))]), "cut"
				case 2:
					h, what, want = bin(tag, append(append([]byte{}, m.blob...), randContent(r, 1+r.IntN(20))...)), "followed by other bytes", rpmutils.ErrTrailingGarbage
				case 3:
					h, what, want = bin(tag, append(append([]byte{}, m.blob...), m.blob...)), "twice", rpmutils.ErrTrailingGarbage
				case 4:
					var b bytes.Buffer
					t.must(packet.NewUserId("a", "b", "c@d").Serialize(&b))
					h, what, want = bin(tag, b.Bytes()), "user ID packet", rpmutils.ErrNoPGPSignature
				case 5:
					var b bytes.Buffer
					t.must(key(m.key).Key.PublicKey.Serialize(&b))
					h, what, want = bin(tag, b.Bytes()), "public key packet", rpmutils.ErrNoPGPSignature
				case 6:
					h, what = HTag{Tag: tag, Type: tString, Count: 1, Data: []byte("signature\x00")}, "string"
				case 7:
					h, what = HTag{Tag: tag, Type: []int{tInt8, tChar}[r.IntN(2)], Count: len(m.blob), Data: m.blob}, "not binary"
				case 8:
					m.id = 3
					m.sign(p.GenBytes, p.Payload)
					h, what, want = bin(tag, m.blob), "names no key", rpmutils.ErrNoPGPSignature
				}
				what = fmt.Sprintf("signature tag %d: %s", tag, what)
				data := set(h)
				t.Sig(data)
				t.Seen("damage", what)
				for k := 0; k < 2; k++ {
					var keys openpgp.EntityList
					if k == 1 {
						keys = ring(m.key)
					}
					hdr, _, err := rpmutils.Verify(bytes.NewReader(data), keys)
					if err == nil {
						t.Errorf("%s: Verify (keyring %v) succeeds", what, k == 1)
					} else if hdr != nil {
						t.Errorf("%s: Verify returns a header and an error", what)
					} else if want != nil && !errors.Is(err, want) {
						t.Errorf("%s: error %q is not %q", what, err, want)
					}
				}
				t.Event("malformed signatures refused")
			}},
			{Name: "payload tags", Variants: []string{"cgo"}, N: n(2000, 10000), Run: func(t *T, i int) {
				r := t.R
				comp := []string{"gzip", "xz", "zstd", "bzip2", "lzma", "uncompressed", ""}[r.IntN(7)]
				p := genPkg(r, PkgOpt{MaxFiles: 4, Compressor: comp, Plain: true})
				var h HTag
				if i%2 == 0 {
					h = strTag(gPayloadFormat, []string{"drpm", "CPIO", "cpio ", "", "cpio\n", "tar", "ustar", "cpi", "xar"}[r.IntN(9)])
				} else {
					h = strTag(gPayloadCompressor, []string{"", "GZIP", "gz", "gzip ", "lz4", "compress", "Zstd", "zst", "lzma2", "lzo", "brotli", "xz\n", "bzip", "bzip3"}[r.IntN(14)])
				}
				if r.IntN(2) == 0 { // almost the right one
					v := map[int]string{gPayloadFormat: "cpio", gPayloadCompressor: comp}[h.Tag]
					if v == "" {
						v = "uncompressed"
					}
					h = strTag(h.Tag, []string{v + " ", " " + v, v + "\n", "\t" + v, v + "\r", strings.ToUpper(v), strings.ToUpper(v[:1]) + v[1:], v + ".1", v + "\v", v + "\u00a0", v + "-", v[:len(v)-1], v + ","}[r.IntN(13)])
				}
				what := fmt.Sprintf("tag %d is %q", h.Tag, h.Val)
				switch r.IntN(5) {
				case 0:
					v := map[int]string{gPayloadFormat: "cpio", gPayloadCompressor: "gzip"}[h.Tag]
					h = strArr(h.Tag, v, v)
					what = fmt.Sprintf("tag %d has two values", h.Tag)
				case 1:
					h = i32(h.Tag, 1)
					what = fmt.Sprintf("tag %d is a number", h.Tag)
				}
				p.Gen = append(dropTags(p.Gen, h.Tag), h)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				t.Seen("payload tags", what)
				open := func() *rpmutils.Rpm {
					rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
					if err != nil {
						t.Fatalf("%s: ReadRpm: %v", what, err)
					}
					return rpm
				}
				if pr, err := open().PayloadReader(); err == nil || pr != nil {
					t.Errorf("%s: PayloadReader: %v, %v", what, pr, err)
				}
				if pr, err := open().PayloadReaderExtended(); err == nil || pr != nil {
					t.Errorf("%s: PayloadReaderExtended: %v, %v", what, pr, err)
				}
				dest := filepath.Join(t.Dir(), "x")
				if err := open().ExpandPayload(dest); err == nil {
					t.Errorf("%s: ExpandPayload succeeds", what)
				}
				if list, _ := os.ReadDir(dest); len(list) > 0 {
					t.Errorf("%s: ExpandPayload made %d entries", what, len(list))
				}
				t.Event("payloads refused")
			}},
			{Name: "archives", N: n(12500, 100000), Run: func(t *T, i int) {
				r := t.R
				files := genFiles(r, FilesOpt{Max: 5, Special: true, Links: true})
				for _, f := range files {
					f.Content = f.Content[:min(len(f.Content), 5000)]
				}
				stripped := i%3 == 0
				_, ents := archiveOf(r, files, stripped, ".", nil)
				data, trailer, _ := buildCpio(ents, 8)
				var sizes []int64
				for _, f := range files {
					sizes = append(sizes, int64(len(f.archived())))
				}
				if sizes == nil {
					sizes = []int64{}
				}
				cr := cpio.NewReaderWithSizes(bytes.NewReader(data), sizes)
				k := 0
				for ; ; k++ {
					if _, err := cr.Next(); err == io.EOF {
						break
					} else if err != nil {
						t.Internal("an intact archive is refused: %v", err)
						return
					}
				}
				t.Event("intact controls accepted")
				v := r.IntN(len(ents) + 1)
				at, strip := trailer, false
				if v < len(ents) {
					strip = stripped
					at = 0
					if v > 0 {
						at = (ents[v-1].DataEnd + 3) / 4 * 4
					}
				}
				what := breakCpio(r, data, at, strip, len(files))
				what = fmt.Sprintf("entry %d of %d (stripped %v): %s", v, len(ents), stripped, what)
				t.Sig(data)
				plan := randPlan(r)
				cr = cpio.NewReaderWithSizes(&fragReader{data: data, r: r, style: r.IntN(fragStyles)}, sizes)
				got, err := drainCpio(cr, 1+r.IntN(3000), plan)
				if err == nil {
					t.Errorf("%s: the archive is read to its end: %s", what, got)
				}
				// exactly what comes before
				cr = cpio.NewReaderWithSizes(bytes.NewReader(data), sizes)
				for k := 0; ; k++ {
					h, err := cr.Next()
					if err != nil {
						if k != v {
							t.Errorf("%s: %d entries before the error %v", what, k, err)
						}
						break
					}
					if k >= v {
						t.Errorf("%s: entry %d is reported as %s", what, k, cpioHdrText(h))
						break
					}
					b, err := io.ReadAll(cr)
					if err != nil || !bytes.Equal(b, ents[k].Data) {
						t.Errorf("%s: content of entry %d: %d bytes, %v", what, k, len(b), err)
					}
				}
				if !stripped {
					dest := filepath.Join(t.Dir(), "x")
					if err := cpio.Extract(bytes.NewReader(data), dest); err == nil {
						t.Errorf("%s: Extract succeeds", what)
					}
					for k := v; k < len(ents); k++ {
						if files[k].ftype() == mDir {
							continue
						}
						if _, err := os.Lstat(filepath.Join(dest, ents[k].Name)); err == nil {
							t.Errorf("%s: Extract made entry %d", what, k)
						}
					}
				}
				t.Event("archives refused")
			}},
			{Name: "not for extraction", N: n(1500, 8000), Run: func(t *T, i int) {
				// archives that can be read, but not extracted
				r := t.R
				e := newcEnt("./dir/x", []int{0o644, 0o140644, 0o110644, 0o150644, 0o170644, 0o030644, 0o070644, 0o130644, 0o1100644, 0o200000}[i%10], randContent(r, r.IntN(20)))
				ents := []*cpioEnt{newcEnt("./a", mReg|0o644, []byte("a")), e, newcEnt("./z", mReg|0o644, []byte("z"))}
				what := fmt.Sprintf("mode %o", e.Fields[cMode])
				if i%4 == 3 {
					ents[1] = &cpioEnt{Stripped: true, Index: r.IntN(3), Data: randContent(r, r.IntN(20))}
					what = "index instead of a name"
				}
				data, _, _ := buildCpio(ents, 8)
				t.Sig(data, i)
				if i%4 == 3 {
					cr := cpio.NewReader(bytes.NewReader(data))
					_, err := drainCpio(cr, 100, readAllPlan)
					if !errors.Is(err, cpio.ErrStrippedHeader) {
						t.Errorf("reading an entry without name and sizes: %v", err)
					}
				}
				dest := filepath.Join(t.Dir(), "x")
				if err := cpio.Extract(bytes.NewReader(data), dest); err == nil {
					t.Errorf("%s: Extract succeeds", what)
				}
				for _, name := range []string{"dir/x", "z"} {
					if _, err := os.Lstat(filepath.Join(dest, name)); err == nil {
						t.Errorf("%s: Extract made %s", what, name)
					}
				}
				t.Event("archives refused")
			}},
		},
	})
}
