package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C08: truncated or failing input is never reported as success.

var errBoom = errors.New("injected read failure")

// cutReader delivers the first k bytes and then ends or fails.
func cutReader(r *rand.Rand, data []byte, k int, fail bool) io.Reader {
	if !fail && r.IntN(3) == 0 {
		return shortReader(r, data[:k])
	}
	f := &fragReader{data: data[:k], r: r, style: []int{0, 0, 3, 5, 7}[r.IntN(5)]}
	if fail {
		f.err = failures[r.IntN(len(failures))]
	}
	return onlyRead{f}
}

// shortReader is a standard reader, seekable perhaps, of what is left.
func shortReader(r *rand.Rand, data []byte) io.Reader {
	kind := r.IntN(len(naturalNames))
	switch naturalNames[kind] {
	case "file", "middle of a file":
		if r.IntN(8) > 0 {
			kind = 0
		}
	case "io.Pipe":
		kind = 1
	case "pipe":
		if len(data) > 4096 || r.IntN(8) > 0 {
			kind = 5
			break
		}
		pr, pw, err := os.Pipe()
		check(err)
		_, err = pw.Write(data)
		check(err)
		check(pw.Close())
		return pr // closed by its finalizer
	}
	rd, _ := natural(r, kind, data)
	return rd
}

// cutRpm reads the headers of a package whose payload is cut.
func cutRpm(t *T, r *rand.Rand, head, data []byte, fail bool) *rpmutils.Rpm {
	rpm, err := rpmutils.ReadRpm(cutReader(r, data, len(data), fail))
	if err != nil && fail && len(data) == len(head) {
		// a failure that comes along with the last bytes may be reported at once
		rpm, err = rpmutils.ReadRpm(onlyRead{&fragReader{data: data, r: r, err: errBoom}})
	}
	t.must(err)
	return rpm
}

// failures are errors that reading may end with, other than the end of the stream.
var failures = []error{
	errBoom, errBoom, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, os.ErrDeadlineExceeded, os.ErrClosed,
	&os.PathError{Op: "read", Path: "x.rpm", Err: syscall.EIO}, io.ErrShortWrite, io.ErrShortBuffer,
}

// entryReader is what the cpio and payload readers have in common.
type entryReader interface {
	next() (size int64, err error) // size < 0: unknown
	Read([]byte) (int, error)
}

type cpioEntries struct{ *cpio.Reader }

func (c cpioEntries) next() (int64, error) {
	h, err := c.Next()
	if err != nil {
		return 0, err
	}
	return h.Filesize64(), nil
}

type payloadEntries struct{ rpmutils.PayloadReader }

func (p payloadEntries) next() (int64, error) {
	f, err := p.Next()
	if err != nil {
		return 0, err
	}
	switch {
	case p.IsLink():
		return 0, nil
	case f.Mode()&^0o7777 == mReg:
		return f.Size(), nil
	case f.Mode()&^0o7777 == mLnk:
		return int64(len(f.Linkname())), nil
	}
	return 0, nil
}

// truncated drains an archive which is cut before its end.
// ents, if given, are the entries of the archive: nothing else is delivered, and
// none whose header is not complete within the first avail bytes.
func truncated(t *T, what string, er entryReader, bufSize int, plan func(int) int, resumes bool, avail int, ents []*cpioEnt) {
	buf := make([]byte, bufSize)
	for i := 0; ; i++ {
		size, err := er.next()
		if err == io.EOF {
			t.Errorf("%s: the normal end of the archive is reported after %d entries", what, i)
			return
		} else if err != nil {
			t.Event("failures reported by Next")
			for j := 0; j < 2 && !resumes; j++ {
				if _, err := er.next(); err == io.EOF {
					t.Errorf("%s: after a failure, Next reports the normal end of the archive", what)
				}
			}
			return
		}
		t.Event("entries read before the cut")
		if ents != nil {
			if i >= len(ents) || avail < ents[i].headEnd() {
				t.Errorf("%s: entry %d is reported though the stream ends inside its header", what, i)
				return
			}
			t.Event("entries compared to what the stream held")
		}
		want := plan(i)
		var k int64
		for want < 0 || k < int64(want) {
			d := buf
			if want >= 0 {
				d = buf[:min(int64(len(buf)), int64(want)-k)]
			}
			c, err := er.Read(d)
			if ents != nil && (k+int64(c) > int64(len(ents[i].Data)) || !bytes.Equal(d[:c], ents[i].Data[k:k+int64(c)])) {
				t.Errorf("%s: bytes %d to %d of entry %d are not what the stream held", what, k, k+int64(c), i)
				return
			}
			k += int64(c)
			if err == io.EOF {
				if k < size {
					t.Errorf("%s: end of file reported after %d of %d bytes", what, k, size)
					return
				}
				break
			} else if err != nil {
				t.Event("failures reported by Read")
				for j := 0; j < 2 && k < size && !resumes; j++ {
					if _, err := er.Read(buf); err == io.EOF {
						t.Errorf("%s: after a failure, Read reports the normal end of the file", what)
					}
				}
				return
			}
		}
	}
}

func init() {
	how := func(fail bool) string {
		if fail {
			return "read error"
		}
		return "end of stream"
	}
	register(&Check{
		ID:    "C08",
		Level: "fault_enumeration",
		Rule:  "each sub-case is one operation on one package or archive whose stream ends (or fails) at one byte offset; offsets are enumerated exhaustively for headers and uncompressed archives and sampled for large compressed payloads; distinct by input, operation, offset and kind of failure",
		Assumptions: []string{
			"a cut inside the compressed payload only has to be noticed if an independent decoder cannot deliver the trailer entry from the bytes that remain",
		},
		Require: map[string]int64{"failures reported by Next": 5000, "failures reported by Read": 1000, "header operations failed": 20000, "extractions failed": 2000},
		Groups: []Group{
			{Name: "headers", N: n(60, 3000), Run: func(t *T, i int) {
				r := t.R
				d := okDigests
				switch i % 5 {
				case 1:
					d.SHA256 = ""
				case 2:
					d.SHA1, d.SHA256 = "", ""
				case 3:
					d.Payload = ""
				case 4:
					d.SHA1, d.SHA256, d.MD5 = "", "", ""
				}
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(300), Digests: &d})
				if r.IntN(2) == 0 {
					signPkg(r, p, "ed25519", crypto.SHA256, time.Unix(1600000000, 0))
				}
				data := p.Bytes()
				t.Sig(data)
				for k := 0; k <= len(data); k++ {
					for _, fail := range []bool{false, true} {
						if k == len(data) && !fail {
							continue
						}
						if k < p.HeaderEnd() {
							if _, err := rpmutils.ReadHeader(cutReader(r, data, k, fail)); err == nil {
								t.Errorf("ReadHeader succeeds on a package of %d header bytes cut at %d (%s)", p.HeaderEnd(), k, how(fail))
							}
							t.Event("header operations failed")
							t.SubSig("read", k, fail)
						}
						if (k+i)%4 == 0 || k > p.HeaderEnd()-4 && k < p.HeaderEnd()+4 || k > len(data)-4 {
							if _, _, err := rpmutils.Verify(cutReader(r, data, k, fail), nil); err == nil {
								t.Errorf("Verify succeeds on a package of %d bytes (%d of header) cut at %d (%s)", len(data), p.HeaderEnd(), k, how(fail))
							}
							t.SubSig("verify", k, fail)
							if _, err := rpmutils.SignRpmStream(cutReader(r, data, k, fail), key("ed25519").Key, nil); err == nil {
								t.Errorf("SignRpmStream succeeds on a package of %d bytes (%d of header) cut at %d (%s)", len(data), p.HeaderEnd(), k, how(fail))
							}
							t.SubSig("sign", k, fail)
							t.Event("header operations failed", 2)
						}
					}
				}
				if _, _, err := rpmutils.Verify(bytes.NewReader(data), nil); err != nil {
					t.Internal("the uncut package does not verify: %v", err)
				}
				if i < 3 {
					t.Sample(map[string]any{"bytes": len(data), "header end": p.HeaderEnd()})
				}
			}},
			{Name: "declared-header-size", N: n(600, 20000), Run: func(t *T, i int) {
				// a header whose declared size is more than what is there
				r := t.R
				lead := buildLead("x", false)
				sig := buildHeader(r, []HTag{i32(sSize, 1)}, HOpt{Region: 62}, true)
				gen := buildHeader(r, basicTags(r, "x"), randHOpt(r, 63), false)
				inSig := r.IntN(2) == 0
				h := gen
				if inSig {
					h = sig
				}
				nind, size := binary.BigEndian.Uint32(h[8:]), binary.BigEndian.Uint32(h[12:])
				rest := randContent(r, []int{0, 16, 100, 2000}[r.IntN(4)])
				have := uint64(len(rest))
				if inSig {
					have += uint64(len(sig) + len(gen) - 16)
				} else {
					have += uint64(len(gen) - 16)
				}
				for tries := 0; ; tries++ {
					nind, size = binary.BigEndian.Uint32(h[8:]), binary.BigEndian.Uint32(h[12:])
					switch r.IntN(5) {
					case 0:
						nind += 1 << 28 * uint32(1+r.IntN(15)) // 16*nind wraps around
					case 1:
						nind = uint32(1<<28*uint32(1+r.IntN(15))) + uint32(r.IntN(4))
						size = uint32(r.IntN(16))
					case 2:
						size = -uint32(1 + r.IntN(16)) // padding wraps around
						if r.IntN(2) == 0 {
							nind = 0
						}
					case 3: // index and data wrap around together
						nind = 1<<28 - 1 - uint32(r.IntN(8))
						size = -nind*16 + uint32(r.IntN(64))
					default:
						size = uint32(have) + uint32(r.IntN(100))
					}
					if uint64(nind)*16+uint64(size) > have {
						break
					}
				}
				binary.BigEndian.PutUint32(h[8:], nind)
				binary.BigEndian.PutUint32(h[12:], size)
				data := append(append(append(append([]byte{}, lead...), sig...), gen...), rest...)
				t.Sig(data)
				what := fmt.Sprintf("header (signature: %v) declaring %#x entries and %#x bytes, %d bytes present", inSig, nind, size, have)
				if _, err := rpmutils.ReadHeader(bytes.NewReader(data)); err == nil {
					t.Errorf("ReadHeader succeeds: %s", what)
				}
				if _, _, err := rpmutils.Verify(bytes.NewReader(data), nil); err == nil {
					t.Errorf("Verify succeeds: %s", what)
				}
				t.Event("header operations failed", 2)
			}},
			{Name: "signing-files", N: n(60, 2000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{RawPayload: 1 + r.IntN(3000)})
				data := p.Bytes()
				t.Sig(data)
				dir := t.Dir()
				in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
				cuts := []int{0, 1, 95, 96, p.HeaderEnd() - 1, p.HeaderEnd(), len(data) - 1}
				for k := 0; k < 12; k++ {
					cuts = append(cuts, r.IntN(len(data)))
				}
				for _, k := range cuts {
					t.must(os.WriteFile(in, data[:k], 0o644))
					f, err := os.Open(in)
					t.must(err)
					if _, err := rpmutils.SignRpmFile(f, out, key("ed25519").Key, nil); err == nil {
						t.Errorf("SignRpmFile succeeds on a package of %d bytes cut at %d", len(data), k)
					}
					f.Close()
					t.Event("header operations failed")
					if k < p.HeaderEnd() {
						f, err := os.Open(in)
						t.must(err)
						if _, err := rpmutils.RewriteWithSignatures(f, out, []byte("s1"), []byte("s2")); err == nil {
							t.Errorf("RewriteWithSignatures succeeds on a package of %d header bytes cut at %d", p.HeaderEnd(), k)
						}
						f.Close()
						t.Event("header operations failed")
					}
					t.SubSig(k)
				}
			}},
			{Name: "archives", N: n(150, 8000), Run: func(t *T, i int) {
				r := t.R
				files := genFiles(r, FilesOpt{Max: 4, Special: true, Links: true})
				for _, f := range files {
					if len(f.Content) > 600 {
						f.Content = f.Content[:r.IntN(600)]
					}
				}
				stripped := i%3 == 0
				_, ents := archiveOf(r, files, stripped, ".", nil)
				data, _, end := buildCpio(ents, 100)
				t.Sig(data)
				var sizes []int64
				for _, f := range files {
					sizes = append(sizes, int64(len(f.archived())))
				}
				dir := t.Dir()
				for k := 0; k < end; k++ {
					fail := (k+i)%2 == 0
					what := fmt.Sprintf("archive of %d entries ending at %d, cut at %d (%s)", len(ents), end, k, how(fail))
					var s []int64
					if stripped {
						s = sizes
					}
					truncated(t, what, cpioEntries{cpio.NewReaderWithSizes(cutReader(r, data, k, fail), s)}, 1+r.IntN(300), randPlan(r), false, k, ents)
					t.SubSig("iterate", k, fail)
					if !stripped && (k%7 == i%7 || k > end-30) {
						if err := cpio.Extract(cutReader(r, data, k, fail), filepath.Join(dir, fmt.Sprint(k))); err == nil {
							t.Errorf("Extract succeeds: %s", what)
						}
						t.Event("extractions failed")
						t.SubSig("extract", k, fail)
					}
				}
				if len(ents) > 0 && i < 4 {
					t.Sample(map[string]any{"entries": len(ents), "stripped": stripped, "cut points": end})
				}
			}},
			{Name: "payloads", Variants: []string{"cgo", "nocgo"}, N: n(84, 3000), Run: func(t *T, i int) {
				r := t.R
				comp := compressors[i%len(compressors)]
				p := genPkg(r, PkgOpt{MaxFiles: 6, Compressor: comp, Stripped: r.IntN(3) == 0})
				layout := 0
				if comp != "" && comp != "uncompressed" {
					layout = r.IntN(compressLayouts[comp])
					p.Payload = compress(r, comp, p.Archive, layout)
					p.Finish(r)
				}
				trailer := bytes.LastIndex(p.Archive, []byte("TRAILER!!!\x00"))
				end := int64(trailer + 11)
				head := p.Bytes()[:p.HeaderEnd()]
				t.Sig(head, p.Payload)
				n := len(p.Payload)
				cuts := []int{0, 1, 2, 3, n - 1, n - 2, n - 4, n - 8, n / 2}
				for k := 0; k < 24; k++ {
					cuts = append(cuts, r.IntN(n))
				}
				for _, k := range cuts {
					if k < 0 || k >= n {
						continue
					}
					avail, _ := decompressed(comp, p.Payload[:k])
					if avail >= end {
						t.Event("cuts after the last needed byte")
						continue
					}
					more, _ := decompressedResuming(comp, p.Payload[:k], 4)
					resumes := more > avail
					fail := r.IntN(2) == 0
					data := append(append([]byte{}, head...), p.Payload[:k]...)
					what := fmt.Sprintf("%s payload (layout %d) of %d bytes cut at %d (%s), %d of %d archive bytes available", comp, layout, n, k, how(fail), avail, end)
					rd := func() *rpmutils.Rpm {
						return cutRpm(t, r, head, data, fail)
					}
					if pr, err := rd().PayloadReaderExtended(); err == nil {
						truncated(t, "PayloadReaderExtended, "+what, payloadEntries{pr}, 1+r.IntN(5000), randPlan(r), resumes, 0, nil)
					} else {
						t.Event("payload readers refused")
					}
					if cr, err := rd().PayloadReader(); err == nil && !p.stripped() {
						truncated(t, "PayloadReader, "+what, cpioEntries{cr}, 1+r.IntN(5000), randPlan(r), resumes, 0, nil)
					}
					if !p.stripped() {
						if err := rd().ExpandPayload(filepath.Join(t.Dir(), "x")); err == nil {
							t.Errorf("ExpandPayload succeeds: %s", what)
						}
						t.Event("extractions failed")
					}
					t.SubSig(k, fail)
					t.Seen("compressor x layout", fmt.Sprint(comp, " ", layout))
				}
			}},
			{Name: "large payloads", Variants: []string{"cgo", "nocgo"}, N: n(21, 600), Run: func(t *T, i int) {
				r := t.R
				comp := compressors[i%len(compressors)]
				p := bigPkg(r, comp, r.IntN(3) == 0, []int{300000, 900000, 3000000}[i/len(compressors)%3])
				trailer := bytes.LastIndex(p.Archive, []byte("TRAILER!!!\x00"))
				end := int64(trailer + 11)
				head := p.Bytes()[:p.HeaderEnd()]
				t.Sig(head, p.Payload)
				n := len(p.Payload)
				cuts := []int{n - 1, n - 9, n - 40}
				for k := 0; k < 4; k++ {
					cuts = append(cuts, r.IntN(n))
				}
				for _, k := range cuts {
					if k < 0 || k >= n {
						continue
					}
					avail, _ := decompressed(comp, p.Payload[:k])
					if avail >= end {
						t.Event("cuts after the last needed byte")
						continue
					}
					more, _ := decompressedResuming(comp, p.Payload[:k], 4)
					resumes := more > avail
					fail := r.IntN(2) == 0
					data := append(append([]byte{}, head...), p.Payload[:k]...)
					what := fmt.Sprintf("%s payload of %d bytes cut at %d (%s), %d of %d archive bytes available", comp, n, k, how(fail), avail, end)
					rd := func() *rpmutils.Rpm {
						return cutRpm(t, r, head, data, fail)
					}
					if pr, err := rd().PayloadReaderExtended(); err == nil {
						truncated(t, "PayloadReaderExtended, "+what, payloadEntries{pr}, 1000+r.IntN(100000), randPlan(r), resumes, 0, nil)
					} else {
						t.Event("payload readers refused")
					}
					if cr, err := rd().PayloadReader(); err == nil && !p.stripped() {
						truncated(t, "PayloadReader, "+what, cpioEntries{cr}, 1000+r.IntN(100000), randPlan(r), resumes, 0, nil)
					}
					if !p.stripped() {
						if err := rd().ExpandPayload(filepath.Join(t.Dir(), "x")); err == nil {
							t.Errorf("ExpandPayload succeeds: %s", what)
						}
						t.Event("extractions failed")
					}
					t.SubSig(k, fail)
					t.Event("cuts of large payloads")
				}
			}},
			{Name: "fixtures", N: func(string) int { return len(fixtureRpms()) }, Run: func(t *T, i int) {
				r := t.R
				data := fixture(fixtureRpms()[i])
				t.Sig(fixtureRpms()[i])
				ref, err := parsePkg(data)
				t.must(err)
				end := len(data) - len(ref.Payload)
				for k := 0; k < 300; k++ {
					c := r.IntN(len(data))
					if k%2 == 0 {
						c = r.IntN(end)
					}
					fail := r.IntN(2) == 0
					if c < end {
						if _, err := rpmutils.ReadHeader(cutReader(r, data, c, fail)); err == nil {
							t.Errorf("ReadHeader succeeds on %s (header of %d bytes) cut at %d", fixtureRpms()[i], end, c)
						}
						t.Event("header operations failed")
					}
					if _, _, err := rpmutils.Verify(cutReader(r, data, c, fail), nil); err == nil {
						t.Errorf("Verify succeeds on %s (%d bytes) cut at %d", fixtureRpms()[i], len(data), c)
					}
					t.Event("header operations failed")
					t.SubSig(c, fail)
				}
			}},
		},
	})
}
