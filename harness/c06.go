package main

import (
	"bufio"
	"bytes"
	"crypto"
	"fmt"
	"io"
	"math/bits"
	"os"
	"path/filepath"
	"testing/iotest"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C06: header reading consumes exactly the header and reports its range.

// greedy offers every optional reading interface and counts what is taken.
type greedy struct {
	*bytes.Reader
	total int64
}

func (g *greedy) pos() int64 { return g.total - int64(g.Len()) }

func checkRange(t *T, what string, hdr *rpmutils.RpmHeader, start, end int) {
	if rg := hdr.GetRange(); rg.Start != start || rg.End != end {
		t.Errorf("%s: range %+v, header is at %d-%d", what, rg, start, end)
	}
	if s := hdr.OriginalSignatureHeaderSize(); s != start {
		t.Errorf("%s: original signature header size %d, is %d", what, s, start)
	}
	t.Event("ranges compared")
}

func init() {
	register(&Check{
		ID:      "C06",
		Rule:    "each case is a package with random header areas (all residues of the signature area's padding, any trailing bytes) read through 8 delivery styles and 5 concrete reader types; consumed bytes and reported offsets are compared with the builder's layout; distinct by package bytes",
		Require: map[string]int64{"positions compared": 8000, "ranges compared": 8000},
		Groups: []Group{
			{Name: "positions", N: n(6000, 100000), Run: func(t *T, i int) {
				r := t.R
				var p *Pkg
				if i%2 == 0 {
					p = randTagPkg(r)
				} else {
					p = genPkg(r, PkgOpt{MaxFiles: 5, Compressor: "uncompressed"})
				}
				if r.IntN(20) == 0 { // large headers, beyond usual buffer sizes
					p.Sig = append(p.Sig, bin(9500, randContent(r, r.IntN(100000))))
					p.Gen = append(p.Gen, bin(9500, randContent(r, r.IntN(300000))))
				}
				p.Payload = randContent(r, []int{0, 1, 7, 100, 5000}[r.IntN(5)])
				p.Finish(r)
				data := p.Bytes()
				start, end := 96+len(p.SigBytes), p.HeaderEnd()
				t.Sig(data)
				ref, err := parsePkg(data)
				t.must(err)
				t.Seen("signature data size mod 8", fmt.Sprint(len(ref.Sig.Store)%8))
				t.Seen("general header size mod 8", fmt.Sprint(len(ref.GenRaw)%8))
				for style := 0; style < fragStyles; style++ {
					m := &meter{r: &fragReader{data: data, style: style, r: r}}
					hdr, err := rpmutils.ReadHeader(m)
					if err != nil {
						t.Fatalf("ReadHeader (%s): %v", fragNames[style], err)
					}
					if m.n != int64(end) {
						t.Errorf("%s: %d bytes consumed, header ends at %d", fragNames[style], m.n, end)
					}
					t.Event("positions compared")
					checkRange(t, fragNames[style], hdr, start, end)
					rest, err := io.ReadAll(m)
					if err != nil || !bytes.Equal(rest, p.Payload) {
						t.Errorf("%s: after the header %d bytes (%v) follow instead of the payload's %d", fragNames[style], len(rest), err, len(p.Payload))
					}
				}
				// readers that offer more than Read
				g := &greedy{Reader: bytes.NewReader(data), total: int64(len(data))}
				rpm, err := rpmutils.ReadRpm(g)
				if err != nil {
					t.Fatalf("ReadRpm: %v", err)
				}
				if g.pos() != int64(end) {
					t.Errorf("bytes.Reader at %d, header ends at %d", g.pos(), end)
				}
				checkRange(t, "ReadRpm", rpm.Header, start, end)
				br := bufio.NewReaderSize(bytes.NewReader(data), 16+r.IntN(10000))
				if _, err := rpmutils.ReadHeader(br); err != nil {
					t.Fatalf("ReadHeader: %v", err)
				}
				if rest, _ := io.ReadAll(br); !bytes.Equal(rest, p.Payload) {
					t.Errorf("bufio.Reader: %d bytes follow the header instead of %d", len(rest), len(p.Payload))
				}
				m := &meter{r: iotest.DataErrReader(bytes.NewReader(data))}
				if _, err := rpmutils.ReadHeader(m); err != nil || m.n != int64(end) {
					t.Errorf("data-error reader: %v, %d bytes consumed of %d", err, m.n, end)
				}
				t.Event("positions compared", 3)
				if i%10 == 0 {
					path := filepath.Join(t.Dir(), "x")
					t.must(os.WriteFile(path, data, 0o644))
					f, err := os.Open(path)
					t.must(err)
					if _, err := rpmutils.ReadHeader(f); err != nil {
						t.Errorf("ReadHeader(file): %v", err)
					}
					pos, err := f.Seek(0, 1)
					t.must(err)
					if pos != int64(end) {
						t.Errorf("file at %d, header ends at %d", pos, end)
					}
					// from the middle of a file
					t.must(os.WriteFile(path, append([]byte("0123456"), data...), 0o644))
					_, err = f.Seek(7, 0)
					t.must(err)
					hdr, err := rpmutils.ReadHeader(f)
					if err != nil {
						t.Errorf("ReadHeader(file at 7): %v", err)
					} else {
						checkRange(t, "file at 7", hdr, start, end)
					}
					f.Close()
					t.Event("positions compared")
				}
				if i < 4 {
					t.Sample(map[string]any{"start": start, "end": end, "payload": len(p.Payload)})
				}
			}},
			{Name: "many entries", N: n(20, 200), Run: func(t *T, i int) {
				r := t.R
				p := &Pkg{Name: "t", Digests: DigestCfg{SHA256: "ok"}}
				k := []int{250, 255, 256, 1000, 1025, 2050, 4095, 4097, 20000, 65536}[i%10] + r.IntN(3)
				if i/10%2 == 0 {
					p.Gen = manyTags(r, k)
				} else {
					p.Sig = manyTags(r, k)
				}
				p.SigOpt, p.GenOpt = randHOpt(r, 62), randHOpt(r, 63)
				p.Payload = randContent(r, r.IntN(10000))
				p.Finish(r)
				data := p.Bytes()
				start, end := 96+len(p.SigBytes), p.HeaderEnd()
				t.Sig(data)
				t.Seen("entries", fmt.Sprint(i/10%2, " ", k/250*250))
				style := r.IntN(fragStyles)
				for _, in := range []io.Reader{bytes.NewReader(data), &fragReader{data: data, style: style, r: r}} {
					m := &meter{r: in}
					hdr, err := rpmutils.ReadHeader(m)
					if err != nil {
						t.Fatalf("ReadHeader of a package with %d tags: %v", k, err)
					}
					if m.n != int64(end) {
						t.Errorf("%d bytes consumed, header ends at %d", m.n, end)
					}
					t.Event("positions compared")
					checkRange(t, "many entries", hdr, start, end)
				}
			}},
			{Name: "large", N: n(12, 48), Run: func(t *T, i int) {
				// sizes around those at which narrow arithmetic goes wrong
				r := t.R
				p := randTagPkg(r)
				size := []int{1<<24 - 1000, 1 << 24, 1 << 16, 1<<16 - 300, 20 << 20, 33 << 20}[i%6] + r.IntN(2000)
				blob := make([]byte, size)
				sig := i/6%2 == 0
				if sig {
					p.Sig = append(dropTags(p.Sig, 9500), bin(9500, blob))
				} else {
					p.Gen = append(dropTags(p.Gen, 9500), bin(9500, blob))
				}
				p.Payload = randContent(r, 1+r.IntN(50))
				p.Finish(r)
				data := p.Bytes()
				start, end := 96+len(p.SigBytes), p.HeaderEnd()
				t.Sig(len(data), i)
				t.Seen("large header", fmt.Sprint(sig, " 2^", bits.Len(uint(size))-1))
				m := &meter{r: bytes.NewReader(data)}
				hdr, err := rpmutils.ReadHeader(m)
				if err != nil {
					t.Fatalf("ReadHeader of a package with a header of %d bytes: %v", size, err)
				}
				if m.n != int64(end) {
					t.Errorf("%d bytes consumed, header ends at %d", m.n, end)
				}
				t.Event("positions compared")
				checkRange(t, "large", hdr, start, end)
			}},
			{Name: "ranges-of-signed-and-verified", N: n(600, 5000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{MaxFiles: 3, Compressor: "gzip"})
				data := p.Bytes()
				t.Sig(data)
				start, end := 96+len(p.SigBytes), p.HeaderEnd()
				hdr, _, err := rpmutils.Verify(bytes.NewReader(data), nil)
				if err != nil {
					t.Fatalf("Verify: %v", err)
				}
				checkRange(t, "Verify", hdr, start, end)
				hdr, err = rpmutils.SignRpmStream(bytes.NewReader(data), key("ed25519").Key, &rpmutils.SignatureOptions{Hash: crypto.SHA512, CreationTime: time.Unix(1700000000, 0)})
				if err != nil {
					t.Fatalf("SignRpmStream: %v", err)
				}
				checkRange(t, "SignRpmStream", hdr, start, end)
				for _, same := range []bool{false, true, false} {
					if _, err := hdr.DumpSignatureHeader(same); err != nil {
						t.Errorf("DumpSignatureHeader: %v", err)
					}
					checkRange(t, "after dumping", hdr, start, end)
				}
				// the stream before the headers was verified must have been read to its end
				m := &meter{r: bytes.NewReader(data)}
				if _, _, err := rpmutils.Verify(m, nil); err != nil || m.n != int64(len(data)) {
					t.Errorf("Verify: %v, %d of %d bytes read", err, m.n, len(data))
				}
			}},
		},
	})
}
