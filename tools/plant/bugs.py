"""The planted bugs: edits, what they break and a demonstration (see plant.py)."""
IMP = '''import (
%s
	rpmutils "github.com/sassoftware/go-rpmutils"
)
'''
def imp(*names, cpio=False, other=()):
    s = ''.join('\t"%s"\n' % n for n in names)
    o = ''.join('\t"%s"\n' % n for n in other)
    if cpio:
        return 'import (\n%s\n%s\t"github.com/sassoftware/go-rpmutils/cpio"\n)\n' % (s, o)
    return 'import (\n%s\n%s\trpmutils "github.com/sassoftware/go-rpmutils"\n)\n' % (s, o)
BUGS = []
def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

bug('c01-string-no-values', 'C01',
 [('rpmutils.go', '''	vals, err := hdr.GetStrings(tag)
	if err != nil {
		return "", err
	}
	if len(vals) != 1 {''', '''	vals, err := hdr.GetStrings(tag)
	if err != nil {
		return "", err
	}
	if len(vals) > 1 {''')],
 'a string array tag with a count of 0, asked for as a single string',
 'GetString panics with an index out of range instead of returning an error',
 imp('bytes', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dTag{tag: 1014, typ: 8, data: []byte{}}), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	within(t, 10*time.Second, func() {
		if s, err := h.GetString(1014); err == nil {
			t.Errorf("got %q", s)
		}
	})
}
''')

bug('c01-payload-digest-empty', 'C01',
 [('signatures.go', '''	if err != nil || len(digests) == 0 {
		// no payload digest''', '''	if err != nil {
		// no payload digest''')],
 'a payload digest tag holding an empty string array, in a package that is verified or signed',
 'Verify panics on hostile input',
 imp('bytes', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	gen := append(dBasic(), dTag{tag: 5092, typ: 8, data: []byte{}}, dInts(5093, 4, 8))
	rpm := dRpm(gen, nil, []byte("payload"))
	within(t, 10*time.Second, func() {
		rpmutils.Verify(bytes.NewReader(rpm), nil)
	})
}
''')

bug('c02-copy-buffer', 'C02',
 [('cpio/extract.go', '''			written, err := io.Copy(f, entry.payload)
''', '''			// large files are copied in large steps
			step := 32 << 10
			if entry.Header.filesize > 1<<20 {
				step = entry.Header.filesize
			}
			written, err := io.CopyBuffer(struct{ io.Writer }{f}, entry.payload, make([]byte, step))
''')],
 'an archive entry that declares a size of gigabytes without delivering it',
 'extraction allocates what the entry declares, not what the stream delivers',
 imp('bytes', 'runtime', 'testing', 'fmt', cpio=True) + '''
func TestDemo(t *testing.T) {
	var b []byte
	b = append(b, fmt.Sprintf("070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", 1, 0100644, 0, 0, 1, 0, 1<<30, 0, 0, 0, 0, 2, 0)...)
	b = append(b, "a\\x00tiny"...)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	if err := cpio.Extract(bytes.NewReader(b), t.TempDir()); err == nil {
		t.Error("succeeded")
	}
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
		t.Errorf("allocated %d bytes", d)
	}
}
''')

bug('c02-entry-table', 'C02',
 [('header.go', '''	ents := make(map[int]entry)
	buf := bytes.NewReader(entryTable)''', '''	buf := bytes.NewReader(entryTable)'''),
  ('header.go', '''	// read entries
	entryTable, err''', '''	// read entries
	ents := make(map[int]entry, int(intro.Entries))
	entryTable, err''')],
 'a header whose intro declares millions of entries that do not follow',
 'reading allocates the declared number of map slots before any entry has been read',
 imp('bytes', 'encoding/binary', 'runtime', 'testing') + '''
func TestDemo(t *testing.T) {
	b := dLead()
	for _, v := range []uint32{0x8eade801, 0, 8 << 20, 16} {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	if _, err := rpmutils.ReadHeader(bytes.NewReader(b)); err == nil {
		t.Error("succeeded")
	}
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
		t.Errorf("allocated %d bytes", d)
	}
}
''')

bug('c03-utf8', 'C03',
 [('header.go', '''	strs := strings.Split(string(ent.contents), "\\x00")
	return strs[:ent.count], nil''', '''	strs := strings.Split(strings.ToValidUTF8(string(ent.contents), "\\uFFFD"), "\\x00")
	return strs[:ent.count], nil''')],
 'a string that is not valid UTF-8, such as Latin-1 text in an old package',
 'strings are not returned as stored',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dStr(1004, "caf\\xe9")), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if s, err := h.GetString(1004); err != nil || s != "caf\\xe9" {
		t.Errorf("%q %v", s, err)
	}
}
''')

bug('c03-char', 'C03',
 [('header.go', '''	case RPM_INT8_TYPE, RPM_INT16_TYPE, RPM_INT32_TYPE, RPM_INT64_TYPE, RPM_CHAR_TYPE:
		out, _, err := hdr.getInts(tag)
		return out, err
	case RPM_BIN_TYPE:
		return hdr.GetBytes(tag)''', '''	case RPM_INT8_TYPE, RPM_INT16_TYPE, RPM_INT32_TYPE, RPM_INT64_TYPE:
		out, _, err := hdr.getInts(tag)
		return out, err
	case RPM_BIN_TYPE, RPM_CHAR_TYPE:
		return hdr.GetBytes(tag)''')],
 'a tag of the CHAR type fetched with Get',
 'Get fails for CHAR tags instead of returning the stored values',
 imp('bytes', 'reflect', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dInts(1029, 1, 7, 200)), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.Get(1029); err != nil || !reflect.DeepEqual(v, []uint8{7, 200}) {
		t.Errorf("%v %v", v, err)
	}
}
''')

bug('c04-uint32-wrap', 'C04',
 [('header.go', '''			out[i] = uint32(v)
		}
	default:
		return nil, fmt.Errorf("tag %d is too big for int type", tag)
	}
	return out, nil
}

// GetUint64s''', '''			out[i] = uint32(v)
		}
	case []uint64:
		for i, v := range bvals {
			if v>>32 > 1 {
				return nil, fmt.Errorf("value %d out of range for uint32 array in tag %d", i, tag)
			}
			out[i] = uint32(v)
		}
	default:
		return nil, fmt.Errorf("tag %d is too big for int type", tag)
	}
	return out, nil
}

// GetUint64s''')],
 'a 64-bit value between 4 and 8 GiB asked for as 32 bits',
 'the value wraps around instead of being an error',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dInts(5009, 5, 1<<32+7)), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.GetUint32(5009); err == nil {
		t.Errorf("got %d", v)
	}
}
''')

bug('c04-payload-size-list', 'C04',
 [('rpmutils.go', '''	} else if len(u) != 1 {
		return -1, errors.New("incorrect number of values")
''', '''	} else if len(u) == 0 {
		return -1, errors.New("incorrect number of values")
''')],
 'a payload size tag with more than one value',
 'PayloadSize takes the first of several values instead of failing',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(dBasic(), []dTag{dInts(1007, 4, 5, 6)}, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.PayloadSize(); err == nil {
		t.Errorf("got %d", v)
	}
}
''')

bug('c04-int16-sign', 'C04',
 [('header.go', '''	case []uint16:
		for i, v := range bvals {
			out[i] = int(v)
		}
	case []uint32:
		for i, v := range bvals {
			if v >''', '''	case []uint16:
		for i, v := range bvals {
			out[i] = int(int16(v))
		}
	case []uint32:
		for i, v := range bvals {
			if v >''')],
 'a 16-bit value with its top bit set (as in the mode of a regular file) fetched with GetInts',
 'the value changes its sign',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dInts(1030, 3, 0100644)), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.GetInt(1030); err != nil || v != 0100644 {
		t.Errorf("%d %v", v, err)
	}
}
''')

bug('c05-sizes-preference', 'C05',
 [('header.go', '''	fileSizes, err := hdr.GetUint64Fallback(FILESIZES, LONGFILESIZES)''', '''	fileSizes, err := hdr.GetUint64Fallback(LONGFILESIZES, FILESIZES)''')],
 'a package that has both the 32-bit and the 64-bit list of file sizes',
 'file sizes come from the 32-bit list, which cannot hold them',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	gen := append(append(dBasic(), dFileTags([]dFile{{name: "/a", mode: 0100644, data: "x"}})...), dInts(5008, 5, 5<<32))
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(gen, nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	f, err := h.GetFiles()
	if err != nil || len(f) != 1 || f[0].Size() != 5<<32 {
		t.Errorf("%v %v", f, err)
	}
}
''')

bug('c05-mtime-sign', 'C05',
 [('fileinfo.go', 'return int(fi.mtime)', 'return int(int32(fi.mtime))')],
 'a file modified after January 2038',
 'the modification time comes out negative',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	gen := append(dBasic(), dFileTags([]dFile{{name: "/a", mode: 0100644, data: "x", mtime: 0x90000000}})...)
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(gen, nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	f, err := h.GetFiles()
	if err != nil || len(f) != 1 || f[0].Mtime() != 0x90000000 {
		t.Errorf("%v %v", f, err)
	}
}
''')

bug('c05-epoch-signed', 'C05',
 [('header.go', '''		Epoch:   strconv.FormatUint(epoch[0], 10),''', '''		Epoch:   strconv.Itoa(int(int32(epoch[0]))),''')],
 'an epoch of 2^31 or more',
 'the NEVRA has a negative epoch',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dInts(1003, 4, 4000000000)), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	n, err := h.GetNEVRA()
	if err != nil || n.Epoch != "4000000000" {
		t.Errorf("%v %v", n, err)
	}
}
''')

bug('c07-peek', 'C07',
 [('uncompress.go', '''		_, err := io.ReadFull(r, b)
		if err != nil {
			return nil, err
		}''', '''		n, err := r.Read(b)
		if err != nil {
			return nil, err
		}
		b = append(b[:n], make([]byte, 2-n)...)[:2]'''),
  ('uncompress.go', '''bytes.NewReader(b), r)''', '''bytes.NewReader(b[:n]), r)''')],
 'a package without a recorded compressor, read from a stream that delivers one byte at a time',
 'a gzip payload is taken for an uncompressed one',
 imp('bytes', 'io', 'testing', 'testing/iotest') + '''
func TestDemo(t *testing.T) {
	files := []dFile{{name: "/a", mode: 0100644, data: "content"}}
	rpm := dRpm(append(dBasic(), dFileTags(files)...), nil, dGzip(dCpio(files)))
	for _, r := range []io.Reader{bytes.NewReader(rpm), iotest.OneByteReader(bytes.NewReader(rpm))} {
		p, err := rpmutils.ReadRpm(r)
		if err != nil {
			t.Fatal(err)
		}
		pr, err := p.PayloadReaderExtended()
		if err != nil {
			t.Fatal(err)
		}
		if f, err := pr.Next(); err != nil || f.Name() != "/a" {
			t.Fatal(f, err)
		}
		if b, err := io.ReadAll(pr); err != nil || string(b) != "content" {
			t.Fatal(b, err)
		}
	}
}
''')

bug('c08-digest-copy', 'C08',
 [('verify_digests.go', '''		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {
			return err
		}
		calculated := hex''', '''		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil && err != io.ErrUnexpectedEOF {
			// a truncated payload doesn't match the digest anyway
			return err
		}
		calculated := hex''')],
 'a stream that fails with an unexpected EOF after the last byte of the payload',
 'verification and signing report success although reading failed',
 imp('bytes', 'io', 'testing', 'testing/iotest') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	if _, _, err := rpmutils.Verify(bytes.NewReader(rpm), nil); err != nil {
		t.Fatal(err)
	}
	if _, _, err := rpmutils.Verify(io.MultiReader(bytes.NewReader(rpm), iotest.ErrReader(io.ErrUnexpectedEOF)), nil); err == nil {
		t.Error("succeeded")
	}
}
''')

bug('c08-trailer-index', 'C08',
 [('cpio/extract.go', '''		entry, err := stream.ReadNextEntry()
		if err != nil {
			return err
		}
''', '''		entry, err := stream.ReadNextEntry()
		if err == io.ErrUnexpectedEOF && len(linkMap) == 0 {
			// some archivers omit the trailer
			break
		}
		if err != nil {
			return err
		}
''')],
 'an archive that is cut off between two entries',
 'extraction of a truncated archive succeeds',
 imp('bytes', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dCpio([]dFile{{name: "a", mode: 0100644, data: "content"}, {name: "b", mode: 0100644, data: "content"}})
	if err := cpio.Extract(bytes.NewReader(b[:120]), t.TempDir()); err == nil {
		t.Error("succeeded")
	}
}
''')

bug('c09-trailer-prefix', 'C09',
 [('cpio/reader.go', '''	} else if ent.Header.filename == TRAILER {''', '''	} else if strings.HasPrefix(ent.Header.filename, TRAILER) {'''),
  ('cpio/reader.go', 'import "io"', 'import (\n\t"io"\n\t"strings"\n)')],
 'an archived file whose name starts with the name of the trailer',
 'iteration ends early',
 imp('bytes', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dCpio([]dFile{{name: "TRAILER!!!.txt", mode: 0100644, data: "content"}})
	if h, err := cpio.NewReader(bytes.NewReader(b)).Next(); err != nil || h.Filename() != "TRAILER!!!.txt" {
		t.Error(h, err)
	}
}
''')

bug('c09-size-sign', 'C09',
 [('cpio/header.go', '''	hdr.size64 = int64(hdr.filesize)''', '''	hdr.size64 = int64(int32(hdr.filesize))''')],
 'a file of 2 GiB or more in an archive of the newc kind',
 'the 64-bit size of the file is negative',
 imp('bytes', 'fmt', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := fmt.Appendf(nil, "070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08xa\\x00", 1, 0100644, 0, 0, 1, 0, 3<<30, 0, 0, 0, 0, 2, 0)
	if h, err := cpio.NewReader(bytes.NewReader(b)).Next(); err != nil || h.Filesize64() != 3<<30 {
		t.Error(h, err)
	}
}
''')

bug('c10-index', 'C10',
 [('cpio/cpio.go', '''	} else if hdr.index >= len(cs.sizes) {''', '''	} else if hdr.index > len(cs.sizes) {''')],
 'a stripped entry with an index equal to the number of files',
 'iteration panics',
 imp('bytes', 'testing', 'time', cpio=True) + '''
func TestDemo(t *testing.T) {
	within(t, 10*time.Second, func() {
		if _, err := cpio.NewReaderWithSizes(bytes.NewReader(dStripped(nil, 2, "")), []int64{0, 0}).Next(); err == nil {
			t.Error("succeeded")
		}
	})
}
''')

bug('c10-negative-size', 'C10',
 [('cpio/stream.go', '''	if fs.curr_pos >= fs.size {''', '''	if fs.curr_pos == fs.size {''')],
 'a stripped archive read with a negative supplied file size',
 'Read panics with a slice index out of range',
 imp('bytes', 'testing', 'time', cpio=True) + '''
func TestDemo(t *testing.T) {
	within(t, 10*time.Second, func() {
		r := cpio.NewReaderWithSizes(bytes.NewReader(dStripped(nil, 0, "some data")), []int64{-5})
		if _, err := r.Next(); err != nil {
			return
		}
		r.Read(make([]byte, 10))
	})
}
''')

bug('c11-inode-key', 'C11',
 [('fileinfo.go', '''(uint64(fi.device) << 32) | uint64(fi.inode)''', '''(uint64(fi.device) << 16) | uint64(fi.inode)''')],
 'two regular files on different devices, with an inode number above 65535',
 'files that are not linked are taken for hard links and lose their content',
 imp('bytes', 'io', 'testing') + '''
func TestDemo(t *testing.T) {
	p, err := rpmutils.ReadRpm(bytes.NewReader(dFileRpm([]dFile{
		{name: "/a", mode: 0100644, data: "one", dev: 1, ino: 0x20005},
		{name: "/b", mode: 0100644, data: "two", dev: 2, ino: 0x10005},
		{name: "/c", mode: 0100644, data: "three", dev: 3, ino: 0x00005},
		{name: "/d", mode: 0100644, data: "four", dev: 3, ino: 0x20005},
	})))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := p.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	for {
		f, err := pr.Next()
		if err == io.EOF {
			break
		} else if err != nil {
			t.Fatal(err)
		}
		if pr.IsLink() {
			t.Error(f.Name(), "is a link")
		}
	}
}
''')

bug('c11-dot-names', 'C11',
 [('payload.go', '''		if len(name) > 1 && name[0] == '.' && name[1] == '/' {
			name = name[1:]
		}
		index, ok = pr.fileMap[name]
		if !ok {''', '''		index, ok = pr.fileMap[name]
		if !ok {
			// relative to the root directory
			index, ok = pr.fileMap["/"+strings.TrimLeft(name, "./")]
		}
		if !ok {'''),
  ('payload.go', '''	"io"

	"github.com/sassoftware/go-rpmutils/cpio"''', '''	"io"
	"strings"

	"github.com/sassoftware/go-rpmutils/cpio"''')],
 'a hidden file in the root directory next to one of the same name without the dot',
 'a file is paired with the metadata of another one',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	files := []dFile{{name: "/profile", mode: 0100644, data: "one"}, {name: "/.profile", mode: 0100600, data: "three"}}
	arch := []dFile{files[1], files[0]}
	arch[0].name, arch[1].name = "./.profile", "./profile"
	rpm := dRpm(append(append(dBasic(), dFileTags(files)...), dStr(1125, "gzip")), nil, dGzip(dCpio(arch)))
	p, err := rpmutils.ReadRpm(bytes.NewReader(rpm))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := p.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	if f, err := pr.Next(); err != nil || f.Name() != "/.profile" {
		t.Error(f, err)
	}
}
''')

bug('c12-gzip-members', 'C12',
 [('uncompress.go', '''		return gzip.NewReader(r)
''', '''		zr, err := gzip.NewReader(r)
		if err != nil {
			return nil, err
		}
		// padding may follow the compressed data
		zr.Multistream(false)
		return zr, nil
''')],
 'a gzip payload made of several members, as parallel compressors write them',
 'the payload ends after the first member',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	files := []dFile{{name: "a", mode: 0100644, data: "content"}}
	c := dCpio(files)
	rpm := dRpm(append(dBasic(), dStr(1125, "gzip")), nil, append(dGzip(c[:50]), dGzip(c[50:])...))
	p, err := rpmutils.ReadRpm(bytes.NewReader(rpm))
	if err != nil {
		t.Fatal(err)
	}
	if err := p.ExpandPayload(t.TempDir()); err != nil {
		t.Error(err)
	}
}
''')

bug('c13-close-on-error', 'C13',
 [('payload.go', '''	hdr, err := pr.cr.Next()
	if err != nil {
		// close decompressor on EOF''', '''	hdr, err := pr.cr.Next()
	if err == io.EOF {
		// close decompressor on EOF'''),
  ('payload.go', '''			c.Close()
		}
		return nil, err
	}
	var index int''', '''			c.Close()
		}
	}
	if err != nil {
		return nil, err
	}
	var index int''')],
 'iteration over a zstd payload that fails because the archive is damaged',
 'the decompressor is not released when iteration fails',
 imp('bytes', 'runtime', 'testing', 'time', other=('github.com/klauspost/compress/zstd',)) + '''
func TestDemo(t *testing.T) {
	w, _ := zstd.NewWriter(nil)
	files := []dFile{{name: "/a", mode: 0100644, data: "content"}}
	z := w.EncodeAll(append([]byte("not an archive"), make([]byte, 8<<20)...), nil)
	rpm := dRpm(append(append(dBasic(), dFileTags(files)...), dStr(1125, "zstd")), nil, z)
	w.Close()
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		p, err := rpmutils.ReadRpm(bytes.NewReader(rpm))
		if err != nil {
			t.Fatal(err)
		}
		pr, err := p.PayloadReaderExtended()
		if err != nil {
			t.Fatal(err)
		}
		if _, err := pr.Next(); err == nil {
			t.Fatal("succeeded")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > n+5; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if m := runtime.NumGoroutine(); m > n+5 {
		t.Errorf("%d goroutines, %d before", m, n)
	}
}
''', env='CGO_ENABLED=0 ')

bug('c13-close-input', 'C13',
 [('uncompress.go', '''		return noCloseWrapper{r}, nil
''', '''		return r, nil
''')],
 'a package whose payload is recorded as uncompressed, read from a file',
 'ExpandPayload closes the file it was given',
 imp('os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	files := []dFile{{name: "a", mode: 0100644, data: "content"}}
	path := filepath.Join(dir, "in.rpm")
	os.WriteFile(path, dRpm(append(dBasic(), dStr(1125, "uncompressed")), nil, dCpio(files)), 0600)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	p, err := rpmutils.ReadRpm(f)
	if err != nil {
		t.Fatal(err)
	}
	if err := p.ExpandPayload(filepath.Join(dir, "out")); err != nil {
		t.Fatal(err)
	}
	if _, err := f.Seek(0, 0); err != nil {
		t.Error(err)
	}
}
''')

bug('c14-fifo-mode', 'C14',
 [('cpio/extract.go', '''fileutil.Mkfifo(target, uint32(entry.Header.Mode()))''', '''fileutil.Mkfifo(target, uint32(entry.Header.Mode()&^0022))''')],
 'a FIFO that is writable by its group or by others, with an umask that allows that',
 'a FIFO does not carry its recorded permissions',
 imp('bytes', 'os', 'path/filepath', 'syscall', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	defer syscall.Umask(syscall.Umask(0))
	b := dCpio([]dFile{{name: "a", mode: 0010666}})
	if err := cpio.Extract(bytes.NewReader(b), dir); err != nil {
		t.Fatal(err)
	}
	i, err := os.Lstat(filepath.Join(dir, "a"))
	if err != nil || i.Mode().Perm() != 0666 {
		t.Error(i.Mode(), err)
	}
}
''')

bug('c14-dir-mode', 'C14',
 [('cpio/extract.go', '''			m := os.FileMode(entry.Header.Mode()).Perm()
''', '''			// the directory's own files follow, so it has to be writable
			m := os.FileMode(entry.Header.Mode()).Perm() | 0300
''')],
 'a directory without write permission for its owner',
 'a directory does not carry its recorded permissions',
 imp('bytes', 'os', 'path/filepath', 'syscall', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	defer syscall.Umask(syscall.Umask(0))
	b := dCpio([]dFile{{name: "a", mode: 0040555, nlink: 2}})
	if err := cpio.Extract(bytes.NewReader(b), dir); err != nil {
		t.Fatal(err)
	}
	i, err := os.Lstat(filepath.Join(dir, "a"))
	if err != nil || i.Mode().Perm() != 0555 {
		t.Error(i.Mode(), err)
	}
}
''')

bug('c14-symlink-clean', 'C14',
 [('cpio/extract.go', '''os.Symlink(string(buf), target)''', '''os.Symlink(filepath.FromSlash(path.Clean(string(buf))), target)''')],
 'a symbolic link whose target is not in its shortest form ("a/../b", "dir/")',
 'symbolic links do not get exactly their archived target',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := dCpio([]dFile{{name: "a", mode: 0120777, data: "x/../y/"}})
	if err := cpio.Extract(bytes.NewReader(b), dir); err != nil {
		t.Fatal(err)
	}
	if l, err := os.Readlink(filepath.Join(dir, "a")); err != nil || l != "x/../y/" {
		t.Error(l, err)
	}
}
''')

bug('c15-parents-first', 'C15',
 [('cpio/extract.go', '''		// Create the parent directory if it doesn't exist.
		if err := os.MkdirAll(parent, 0755); err != nil {
			return err
		}
		// FIXME''', '''		// FIXME'''),
  ('cpio/extract.go', '''		parent := filepath.Dir(target)
''', '''		// Create the parent directory if it doesn't exist.
		parent := filepath.Dir(target)
		if err := os.MkdirAll(parent, 0755); err != nil {
			return err
		}
''')],
 'a symbolic link to a directory outside, followed by an entry two levels below it',
 'a directory is created outside of the destination before the entry is refused',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := filepath.Join(dir, "outside")
	os.Mkdir(out, 0755)
	b := dCpio([]dFile{{name: "ln", mode: 0120777, data: out}, {name: "ln/sub/file", mode: 0100644, data: "x"}})
	cpio.Extract(bytes.NewReader(b), filepath.Join(dir, "dest"))
	if l, _ := os.ReadDir(out); len(l) != 0 {
		t.Error(l)
	}
}
''')

bug('c16-old-dsa', 'C16',
 [('signatures.go', '''	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)
	delete(sigHeader.entries, SIG_DSA)
''', '''	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)
''')],
 'signing a package that carries a DSA signature over its header',
 'the old signature stays in the package, which does not verify against the new key',
 imp('bytes', 'testing', other=('github.com/ProtonMail/go-crypto/openpgp',)) + '''
func TestDemo(t *testing.T) {
	a, b := dKey(t, "a"), dKey(t, "b")
	first := dSign(t, dRpm(dBasic(), nil, []byte("payload")), a.PrivateKey, nil)
	h, err := rpmutils.ReadHeader(bytes.NewReader(first))
	if err != nil {
		t.Fatal(err)
	}
	old, err := h.GetBytes(rpmutils.SIG_RSA)
	if err != nil {
		t.Fatal(err)
	}
	second := dSign(t, dRpm(dBasic(), []dTag{dBin(267, old)}, []byte("payload")), b.PrivateKey, nil)
	if _, sigs, err := rpmutils.Verify(bytes.NewReader(second), openpgp.EntityList{b}); err != nil || len(sigs) != 2 {
		t.Error(len(sigs), err)
	}
}
''')

bug('c16-creation-time', 'C16',
 [('signatures.go', '''func makeSignature(h hash.Hash''', '''var signatureTime time.Time

func makeSignature(h hash.Hash'''),
  ('signatures.go', '''	hashType := opts.hash()
	sig :=''', '''	hashType := opts.hash()
	// both signatures carry the same time
	if signatureTime.IsZero() {
		signatureTime = opts.creationTime()
	}
	sig :='''),
  ('signatures.go', '''		CreationTime: opts.creationTime(),''', '''		CreationTime: signatureTime,'''),
  ('signatures.go', '''	insertSignatures(sigHeader, sigPgp, sigRsa)
	return &RpmHeader{''', '''	insertSignatures(sigHeader, sigPgp, sigRsa)
	if opts != nil {
		signatureTime = time.Time{}
	}
	return &RpmHeader{''')],
 'signing two packages in one process, the first without options and the second with a creation time',
 'the second package carries the creation time of the first',
 imp('bytes', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	dSign(t, rpm, a.PrivateKey, nil)
	when := time.Now().Add(-time.Hour).Truncate(time.Second)
	signed := dSign(t, rpm, a.PrivateKey, &rpmutils.SignatureOptions{CreationTime: when})
	_, sigs, err := rpmutils.Verify(bytes.NewReader(signed), nil)
	if err != nil || len(sigs) != 2 {
		t.Fatal(len(sigs), err)
	}
	for _, s := range sigs {
		if !s.CreationTime.Equal(when) {
			t.Error(s.CreationTime, when)
		}
	}
}
''')

bug('c17-skip-payload-sig', 'C17',
 [('verify.go', '''	for i, sig := range sigs {
		h := hashes[i]
		if err := sig.validate(h); err != nil {
			return nil, nil, err
		}
	}
''', '''	headerSigner := uint64(0)
	for i, sig := range sigs {
		if _, algo := getPayloadDigest(genHeader); algo != 0 && !sig.HeaderOnly && sig.KeyId == headerSigner {
			// the signed header holds the payload digest, which matches
			sig.Signer, sig.KeyFingerprint, sig.PrimaryName = sigs[0].Signer, sigs[0].KeyFingerprint, sigs[0].PrimaryName
			continue
		}
		h := hashes[i]
		if err := sig.validate(h); err != nil {
			return nil, nil, err
		}
		headerSigner = sig.KeyId
	}
''')],
 'a header-plus-payload signature taken from another package by the same key, next to a valid header-only one',
 'a signature that is not valid over what it claims to cover is reported as verified',
 imp('bytes', 'testing', other=('github.com/ProtonMail/go-crypto/openpgp',)) + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	one := dRpm(dBasic(), nil, []byte("payload"))
	get := func(rpm []byte, tag int) []byte {
		h, err := rpmutils.ReadHeader(bytes.NewReader(dSign(t, rpm, a.PrivateKey, nil)))
		if err != nil {
			t.Fatal(err)
		}
		b, err := h.GetBytes(tag)
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	rsa := get(one, rpmutils.SIG_RSA)
	pgp := get(dRpm(dBasic(), nil, []byte("other")), rpmutils.SIG_PGP)
	mixed := dRpm(dBasic(), []dTag{dBin(268, rsa), dBin(1002, pgp)}, []byte("payload"))
	if _, _, err := rpmutils.Verify(bytes.NewReader(mixed), openpgp.EntityList{a}); err == nil {
		t.Error("verified")
	}
}
''')

bug('c17-appended', 'C17',
 [('verify_digests.go', '''	if payloadValue, payloadType := getPayloadDigest(genHeader); payloadType != 0 {
''', '''	if n, err := sigHeader.GetUint32s(SIG_SIZE - _SIGHEADER_TAG_BASE); err == nil && len(n) == 1 && int(n[0]) > len(genHeader.orig) {
		// anything beyond the recorded size isn't part of the package
		payloadReader = io.LimitReader(payloadReader, int64(n[0])-int64(len(genHeader.orig)))
	}
	if payloadValue, payloadType := getPayloadDigest(genHeader); payloadType != 0 {
''')],
 'data appended to a signed package that records its size in the signature header',
 'the appended data goes unnoticed',
 imp('bytes', 'testing', other=('github.com/ProtonMail/go-crypto/openpgp',)) + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	h, err := rpmutils.ReadHeader(bytes.NewReader(rpm))
	if err != nil {
		t.Fatal(err)
	}
	r := h.GetRange()
	rpm = dRpm(dBasic(), []dTag{dInts(1000, 4, uint64(len(rpm)-r.Start))}, []byte("payload"))
	signed := dSign(t, rpm, a.PrivateKey, nil)
	if _, _, err := rpmutils.Verify(bytes.NewReader(signed), openpgp.EntityList{a}); err != nil {
		t.Fatal(err)
	}
	if _, _, err := rpmutils.Verify(bytes.NewReader(append(signed, "more"...)), openpgp.EntityList{a}); err == nil {
		t.Error("verified")
	}
}
''')

bug('c18-empty-keyring', 'C18',
 [('verify_v4.go', '''		if knownKeys == nil {''', '''		if len(knownKeys) == 0 {''')],
 'verification against a keyring that is empty but not nil',
 'an untrusted signature is accepted',
 imp('bytes', 'testing', other=('github.com/ProtonMail/go-crypto/openpgp',)) + '''
func TestDemo(t *testing.T) {
	signed := dSign(t, dRpm(dBasic(), nil, []byte("payload")), dKey(t, "a").PrivateKey, nil)
	if _, _, err := rpmutils.Verify(bytes.NewReader(signed), openpgp.EntityList{}); err == nil {
		t.Error("verified")
	}
}
''')

bug('c18-subkey', 'C18',
 [('verify_v4.go', '''				return entity, sub.PublicKey
''', '''				return knownKeys[0], sub.PublicKey
''')],
 'a signature by a subkey of a key that is not the first of the keyring',
 'the wrong entity is reported as signer',
 imp('bytes', 'testing', other=('github.com/ProtonMail/go-crypto/openpgp',)) + '''
func TestDemo(t *testing.T) {
	a, b := dKey(t, "a"), dKey(t, "b")
	if err := b.AddSigningSubkey(nil); err != nil {
		t.Fatal(err)
	}
	sub := b.Subkeys[len(b.Subkeys)-1].PrivateKey
	signed := dSign(t, dRpm(dBasic(), nil, []byte("payload")), sub, nil)
	_, sigs, err := rpmutils.Verify(bytes.NewReader(signed), openpgp.EntityList{a, b})
	if err != nil || len(sigs) != 2 || sigs[0].Signer != b {
		t.Error(sigs, err)
	}
}
''')

bug('c19-sha384', 'C19',
 [('signatures.go', '''	case HASH_SHA384:
		return digest, crypto.SHA384
''', ''),],
 'a package whose payload digest is SHA-384',
 'the payload digest is not checked (or, without a legacy MD5, an intact package is rejected)',
 imp('bytes', 'crypto/sha512', 'encoding/hex', 'testing') + '''
func TestDemo(t *testing.T) {
	sum := sha512.Sum384([]byte("payload"))
	gen := append(dBasic(), dStrs(5092, hex.EncodeToString(sum[:])), dInts(5093, 4, 9))
	if _, _, err := rpmutils.Verify(bytes.NewReader(dRpm(gen, nil, []byte("payload"))), nil); err != nil {
		t.Error(err)
	}
	// the MD5 is right, the payload digest is not
	if _, _, err := rpmutils.Verify(bytes.NewReader(dRpm(gen, nil, []byte("other"))), nil); err == nil {
		t.Error("accepted")
	}
}
''')

bug('c19-stored-case', 'C19',
 [('header.go', '''		if calculated != hash {''', '''		if len(hash) == len(calculated) && calculated != hash {''')],
 'a header digest in the signature header that has been cut short',
 'a digest of the wrong length is not enforced',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), []dTag{dStr(273, "0123456789abcdef")}, []byte("payload"))
	if _, err := rpmutils.ReadHeader(bytes.NewReader(rpm)); err == nil {
		t.Error("accepted")
	}
}
''')

bug('c20-exact-fit', 'C20',
 [('writeheader.go', '''		if needed+16 <= available {''', '''		if needed+16 < available {''')],
 'a signature header whose content leaves room for exactly an empty reserved-space entry',
 'a same-size dump is 16 bytes too small although the content fits',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), []dTag{dBin(1008, []byte{})}, []byte("payload"))
	h, err := rpmutils.ReadHeader(bytes.NewReader(rpm))
	if err != nil {
		t.Fatal(err)
	}
	b, err := h.DumpSignatureHeader(true)
	if err != nil || len(b) != h.OriginalSignatureHeaderSize() {
		t.Error(len(b), h.OriginalSignatureHeaderSize(), err)
	}
}
''')

bug('c21-smaller-in-place', 'C21',
 [('signatures.go', '''	if orig != len(blob) {
''', '''	if orig < len(blob) {
''')],
 'signing a package onto itself when the new signature header is 8 bytes smaller than the old one, too little for reserved space',
 'the package is updated in place with a header that is too small, which leaves a broken package',
 imp('bytes', 'os', 'path/filepath', 'testing', other=('github.com/ProtonMail/go-crypto/openpgp',)) + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	payload := []byte("payload")
	base := dSign(t, dRpm(dBasic(), nil, payload), a.PrivateKey, nil)
	h, err := rpmutils.ReadHeader(bytes.NewReader(base))
	if err != nil {
		t.Fatal(err)
	}
	rsa, _ := h.GetBytes(rpmutils.SIG_RSA)
	pgp, _ := h.GetBytes(rpmutils.SIG_PGP)
	for n := 0; n < 40; n++ {
		rpm := dRpm(dBasic(), []dTag{dBin(268, rsa), dBin(1002, append(append([]byte(nil), pgp...), make([]byte, n)...))}, payload)
		path := filepath.Join(t.TempDir(), "a.rpm")
		os.WriteFile(path, rpm, 0644)
		f, err := os.Open(path)
		if err != nil {
			t.Fatal(err)
		}
		_, err = rpmutils.SignRpmFile(f, path, a.PrivateKey, nil)
		f.Close()
		if err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(path)
		if _, _, err := rpmutils.Verify(bytes.NewReader(b), openpgp.EntityList{a}); err != nil {
			t.Error(n, err)
		}
	}
}
''')

bug('c21-same-name', 'C21',
 [('signatures.go', '''	if !os.SameFile(ininfo, outinfo) {
		return false
	}
''', '''	if !os.SameFile(ininfo, outinfo) && (ininfo.Name() != outinfo.Name() || ininfo.Size() != outinfo.Size()) {
		return false
	}
''')],
 'signing to another existing file of the same name and size in a different directory',
 'only the start of the destination is replaced, so that it mixes two packages',
 imp('bytes', 'os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	dir := t.TempDir()
	rpm := dRpm(dBasic(), []dTag{dBin(1008, make([]byte, 2000))}, []byte("payload"))
	os.Mkdir(filepath.Join(dir, "out"), 0755)
	in, out := filepath.Join(dir, "a.rpm"), filepath.Join(dir, "out", "a.rpm")
	os.WriteFile(in, rpm, 0644)
	os.WriteFile(out, bytes.Repeat([]byte("x"), len(rpm)), 0644)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if _, err = rpmutils.SignRpmFile(f, out, a.PrivateKey, nil); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(out)
	if _, _, err := rpmutils.Verify(bytes.NewReader(b), nil); err != nil {
		t.Error(err)
	}
}
''')

bug('c21-hardlink', 'C21',
 [('fileutil/fileutil_unix.go', '''	return stat.Nlink != 1
''', '''	// the file itself and the one being replaced
	return stat.Nlink > 2
''')],
 'signing a package onto itself when it has exactly one other hard link and room for the signatures',
 'the other link changes along with the destination',
 imp('bytes', 'os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	dir := t.TempDir()
	rpm := dRpm(dBasic(), []dTag{dBin(1008, make([]byte, 2000))}, []byte("payload"))
	in, other := filepath.Join(dir, "a.rpm"), filepath.Join(dir, "b.rpm")
	os.WriteFile(in, rpm, 0644)
	if err := os.Link(in, other); err != nil {
		t.Fatal(err)
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if _, err = rpmutils.SignRpmFile(f, in, a.PrivateKey, nil); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(other); !bytes.Equal(b, rpm) {
		t.Error("the other link changed")
	}
}
''')

bug('c23-overflow', 'C23',
 [('vercmp.go', '''			// Whichever number has more digits wins
			m1Hlen := len(m1Head)
			m2Hlen := len(m2Head)
			if m1Hlen < m2Hlen {
				return -1
			}
			if m1Hlen > m2Hlen {
				return 1
			}
		}
''', '''			n1, _ := strconv.ParseUint(m1Head, 10, 64)
			n2, _ := strconv.ParseUint(m2Head, 10, 64)
			if n1 < n2 {
				return -1
			}
			if n1 > n2 {
				return 1
			}
			continue
		}
'''),
  ('vercmp.go', '''	"regexp"
	"strings"
''', '''	"regexp"
	"strconv"
	"strings"
''')],
 'numeric segments of more than 64 bits, such as long timestamps or hashes',
 'different versions compare as equal',
 imp('testing') + '''
func TestDemo(t *testing.T) {
	if c := rpmutils.Vercmp("1.99999999999999999999998", "1.99999999999999999999999"); c != -1 {
		t.Error(c)
	}
}
''')

bug('c23-epoch', 'C23',
 [('nevra.go', '''	if res := Vercmp(a.Epoch, b.Epoch); res != 0 {
		return res
	}
''', '''	if res := strings.Compare(a.Epoch, b.Epoch); res != 0 {
		return res
	}
'''),
  ('nevra.go', '''	"sort"
''', '''	"sort"
	"strings"
''')],
 'epochs with different numbers of digits',
 'epoch 9 sorts after epoch 10',
 imp('testing') + '''
func TestDemo(t *testing.T) {
	if c := rpmutils.NEVRAcmp(rpmutils.NEVRA{Epoch: "9", Version: "1", Release: "1"}, rpmutils.NEVRA{Epoch: "10", Version: "1", Release: "1"}); c != -1 {
		t.Error(c)
	}
}
''')

bug('c24-less', 'C24',
 [('nevra.go', '''	return NEVRAcmp(s[i], s[j]) == -1
''', '''	return NEVRAcmp(s[i], s[j]) != 1
''')],
 'a stable sort of packages of which several compare as equal',
 'equal elements change their order',
 imp('sort', 'testing') + '''
func TestDemo(t *testing.T) {
	var s rpmutils.NEVRASlice
	for i := 0; i < 40; i++ {
		s = append(s, rpmutils.NEVRA{Name: string(rune('A' + i)), Epoch: "0", Version: []string{"2", "1"}[i%2], Release: "1"})
	}
	sort.Stable(s)
	for i := 1; i < len(s); i++ {
		if s[i-1].Version == s[i].Version && s[i-1].Name > s[i].Name {
			t.Fatal("reordered")
		}
	}
}
''')

bug('c24-name-tiebreak', 'C24',
 [('nevra.go', '''	if res := Vercmp(a.Release, b.Release); res != 0 {
		return res
	}
	return 0
''', '''	if res := Vercmp(a.Release, b.Release); res != 0 {
		return res
	}
	if a.Arch != b.Arch && a.Arch == "noarch" {
		// prefer the specific one
		return -1
	}
	return 0
''')],
 'packages of the same version of which only one is noarch',
 'comparison is not antisymmetric',
 imp('testing') + '''
func TestDemo(t *testing.T) {
	a, b := rpmutils.NEVRA{Epoch: "0", Version: "1", Release: "1", Arch: "noarch"}, rpmutils.NEVRA{Epoch: "0", Version: "1", Release: "1", Arch: "i386"}
	if rpmutils.NEVRAcmp(a, b) != -rpmutils.NEVRAcmp(b, a) {
		t.Error("not antisymmetric")
	}
}
''')

bug('c25-scratch', 'C25',
 [('cpio/header.go', '''type binaryReader struct {
	r   io.Reader
	buf [8]byte
}
''', '''type binaryReader struct {
	r io.Reader
}

var fieldBuf [8]byte
'''),
  ('cpio/header.go', '''	bb := br.buf[:8]
''', '''	bb := fieldBuf[:8]
''')],
 'two archives read at the same time by different goroutines',
 'header fields of one archive end up in the other',
 imp('bytes', 'sync', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dCpio([]dFile{{name: "a", mode: 0100644, data: "content"}})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				if _, err := cpio.NewReader(bytes.NewReader(b)).Next(); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''', flags=' -race')

bug('c25-vercmp-cache', 'C25',
 [('vercmp.go', '''func Vercmp(first, second string) int {
	var m1Head, m2Head string
''', '''func Vercmp(first, second string) int {
	if first == second {
		return 0
	}
	if lastVercmp.first == first && lastVercmp.second == second {
		return lastVercmp.result
	}
	res := vercmp(first, second)
	lastVercmp.first, lastVercmp.second, lastVercmp.result = first, second, res
	return res
}

// sorting tends to compare the same pair again
var lastVercmp struct {
	first, second string
	result        int
}

func vercmp(first, second string) int {
	var m1Head, m2Head string
''')],
 'versions compared by several goroutines at once',
 'a data race that can give the result of another comparison',
 imp('sync', 'testing') + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				rpmutils.Vercmp("1.0", "2.0")
				rpmutils.Vercmp("2.0", "1.0")
			}
		}()
	}
	wg.Wait()
}
''', flags=' -race')

bug('c25-lazy-files', 'C25',
 [('rpmutils.go', '''func (hdr *RpmHeader) GetFiles() ([]FileInfo, error) {
	return hdr.genHeader.GetFiles()
}''', '''func (hdr *RpmHeader) GetFiles() ([]FileInfo, error) {
	if hdr.files == nil {
		files, err := hdr.genHeader.GetFiles()
		if err != nil {
			return nil, err
		}
		hdr.files = files
	}
	return hdr.files[:len(hdr.files):len(hdr.files)], nil
}'''),
  ('rpmutils.go', '''	genHeader *rpmHeader
	isSource  bool
}''', '''	genHeader *rpmHeader
	isSource  bool
	files     []FileInfo
}''')],
 'the file list of one header object asked for by several goroutines at once',
 'a data race on the header object',
 imp('bytes', 'sync', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dFileRpm([]dFile{{name: "/a", mode: 0100644, data: "x"}})))
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if f, err := h.GetFiles(); err != nil || len(f) != 1 {
				t.Error(f, err)
			}
		}()
	}
	wg.Wait()
}
''', flags=' -race')

bug('c26-string-cache', 'C26',
 [('header.go', '''	entries  map[int]entry
	isSource bool
	orig     []byte
}''', '''	entries  map[int]entry
	isSource bool
	orig     []byte
	strs     sync.Map // string arrays already split up
}'''),
  ('header.go', '''	strs := strings.Split(string(ent.contents), "\\x00")
	return strs[:ent.count], nil''', '''	if strs, ok := hdr.strs.Load(tag); ok {
		return strs.([]string), nil
	}
	strs := strings.Split(string(ent.contents), "\\x00")
	hdr.strs.Store(tag, strs[:ent.count])
	return strs[:ent.count], nil'''),
  ('header.go', '''	"strings"
)''', '''	"strings"
	"sync"
)''')],
 'a caller that changes the list of strings it got, and a second query of the same tag',
 'later queries return what the caller wrote',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dStrs(1098, "a", "b")), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	s, err := h.GetStrings(1098)
	if err != nil {
		t.Fatal(err)
	}
	s[0] = "changed"
	if s, err = h.GetStrings(1098); err != nil || s[0] != "a" {
		t.Error(s, err)
	}
}
''')

bug('c27-rewrite-keep-sha', 'C27',
 [('signatures.go', '''	insertSignatures(header.sigHeader, sigPgp, sigRsa)
	err = rewriteRpm(infile, outpath, header)''', '''	if len(sigPgp) > 0 {
		insertSignature(header.sigHeader, SIG_PGP-_SIGHEADER_TAG_BASE, sigPgp)
	}
	if len(sigRsa) > 0 {
		insertSignature(header.sigHeader, SIG_RSA, sigRsa)
	}
	err = rewriteRpm(infile, outpath, header)''')],
 'raw signatures inserted into a package that already carries DSA (GPG) signatures',
 'superseded signatures stay in the package',
 imp('os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "a.rpm")
	os.WriteFile(path, dRpm(dBasic(), []dTag{dBin(1005, []byte("old"))}, []byte("payload")), 0644)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	sig := []byte("raw signature")
	h, err := rpmutils.RewriteWithSignatures(f, filepath.Join(dir, "b.rpm"), sig, sig)
	if err != nil {
		t.Fatal(err)
	}
	if h.HasTag(rpmutils.SIG_GPG) {
		t.Error("kept")
	}
}
''')

bug('c06-range-written', 'C06',
 [('rpmutils.go', '''	start := 96 + len(hdr.sigHeader.orig)
	end :=''', '''	size, err := hdr.sigHeader.size(RPMTAG_HEADERSIGNATURES)
	if err != nil {
		size = uint64(len(hdr.sigHeader.orig))
	}
	start := 96 + int(size)
	end :=''')],
 'a signature header with unused bytes in its data area, or one that has been signed since it was read',
 'the range is that of the header as it would be written, not as it was read',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), dKey(t, "a").PrivateKey, nil)
	if err != nil {
		t.Fatal(err)
	}
	if r := h.GetRange(); string(rpm[r.End:]) != "payload" {
		t.Error(r)
	}
}
''')

bug('c06-size-mask', 'C06',
 [('header.go', 'size = (size + 7) / 8 * 8', 'size = (size + 7) & 0xfffff8')],
 'a signature header of 16 MiB or more',
 'the general header is looked for in the middle of the signature header',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), []dTag{dBin(1008, make([]byte, 17<<20))}, []byte("payload"))
	r := bytes.NewReader(rpm)
	if _, err := rpmutils.ReadHeader(r); err != nil {
		t.Fatal(err)
	}
	if r.Len() != 7 {
		t.Error(r.Len())
	}
}
''')

bug('c12-zstd-memory', 'C12',
 [('uncompress_nocgo.go', 'zstd.NewReader(r)', 'zstd.NewReader(r, zstd.WithDecoderMaxWindow(8<<20))')],
 'a zstd payload compressed with a window of more than 8 MiB (level 19 and up), and the pure-Go decoder',
 'the payload cannot be read without cgo',
 imp('bytes', 'io', 'testing', other=('github.com/klauspost/compress/zstd',)) + '''
func TestDemo(t *testing.T) {
	files := []dFile{{name: "/a", mode: 0100644, data: "content"}}
	var z bytes.Buffer
	w, err := zstd.NewWriter(&z, zstd.WithWindowSize(16<<20), zstd.WithSingleSegment(false))
	if err != nil {
		t.Fatal(err)
	}
	w.Write(dCpio(files))
	w.Flush() // so that the size is not known in advance
	w.Write(make([]byte, 1<<20))
	w.Close()
	rpm := dRpm(append(append(dBasic(), dFileTags(files)...), dStr(1125, "zstd")), nil, z.Bytes())
	p, err := rpmutils.ReadRpm(bytes.NewReader(rpm))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := p.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := pr.Next(); err != nil {
		t.Fatal(err)
	}
	if b, err := io.ReadAll(pr); err != nil || string(b) != "content" {
		t.Error(b, err)
	}
}
''', env='CGO_ENABLED=0 ')

bug('c15-chmod-existing', 'C15',
 [('cpio/extract.go', '''			m := os.FileMode(entry.Header.Mode()).Perm()
''', '''			m := os.FileMode(entry.Header.Mode()).Perm()
			if info, err := os.Stat(target); err == nil && info.IsDir() && target != dest {
				// created as the parent of another entry
				if err := os.Chmod(target, m); err != nil {
					return err
				}
				continue
			}
'''),
 ('cpio/extract.go', '''		// FIXME: Need a makedev implementation in go.

''', '''
		// FIXME: Need a makedev implementation in go.
''')],
 'a symbolic link to a directory outside, followed by a directory entry of the same name',
 'the permissions of a directory outside of the destination change',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := filepath.Join(dir, "outside")
	os.Mkdir(out, 0700)
	b := dCpio([]dFile{{name: "ln", mode: 0120777, data: out}, {name: "ln", mode: 0040755, nlink: 2}})
	cpio.Extract(bytes.NewReader(b), filepath.Join(dir, "dest"))
	if i, err := os.Stat(out); err != nil || i.Mode().Perm() != 0700 {
		t.Error(i.Mode(), err)
	}
}
''')

bug('c20-align', 'C20',
 [('writeheader.go', '''	align, ok := typeAlign[e.dataType]
	if ok {''', '''	align, ok := typeAlign[e.dataType]
	if ok && e.count > 1 {''')],
 'a signature header with a single integer after data of odd length',
 'integers are not aligned in the dumped header',
 imp('bytes', 'encoding/binary', 'testing') + '''
func TestDemo(t *testing.T) {
	for k := 0; k < 4; k++ {
		rpm := dRpm(dBasic(), []dTag{dBin(1005, make([]byte, k)), dInts(1007, 4, 77)}, []byte("payload"))
		h, err := rpmutils.ReadHeader(bytes.NewReader(rpm))
		if err != nil {
			t.Fatal(err)
		}
		b, err := h.DumpSignatureHeader(false)
		if err != nil {
			t.Fatal(err)
		}
		n := int(binary.BigEndian.Uint32(b[104:]))
		for i := 0; i < n; i++ {
			e := b[112+16*i:]
			if binary.BigEndian.Uint32(e[4:]) == 4 && binary.BigEndian.Uint32(e[8:])%4 != 0 {
				t.Error("unaligned")
			}
		}
	}
}
''')

bug('c22-buffered', 'C22',
 [('signatures.go', '''	_, err = io.Copy(outstream, infile)
	return err
}''', '''	w := bufio.NewWriterSize(outstream, 1<<16)
	defer w.Flush()
	_, err = io.Copy(struct{ io.Writer }{w}, infile)
	return err
}'''),
  ('signatures.go', '''import (
	"bytes"
''', '''import (
	"bufio"
	"bytes"
''')],
 'a disk that fills up while the last few kilobytes of the signed package are written',
 'the failure is not noticed and a truncated package replaces the destination',
 imp('bytes', 'os', 'os/signal', 'path/filepath', 'syscall', 'testing') + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	dir := t.TempDir()
	rpm := dRpm(dBasic(), nil, bytes.Repeat([]byte("payload"), 1000))
	in, out := filepath.Join(dir, "a.rpm"), filepath.Join(dir, "b.rpm")
	os.WriteFile(in, rpm, 0644)
	os.WriteFile(out, []byte("old"), 0644)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(len(rpm) - 100), Max: old.Max})
	_, err = rpmutils.SignRpmFile(f, out, a.PrivateKey, nil)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if b, _ := os.ReadFile(out); err == nil || string(b) != "old" {
		t.Error(len(b), err)
	}
}
''')



bug('c26-reserved-stays', 'C26',
 [('writeheader.go', '''	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
	if sameSize {
		needed''', '''	if sameSize {
		delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
		needed''')],
 'a dump of the original size before one that is to be as small as possible',
 'the result of the second dump depends on the first',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), []dTag{dBin(269, make([]byte, 20))}, []byte("payload"))
	read := func() *rpmutils.RpmHeader {
		h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), dKey(t, "a").PrivateKey, nil)
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	_ = read
	rpm = dRpm(dBasic(), []dTag{dBin(1005, make([]byte, 100)), dBin(267, make([]byte, 1000))}, []byte("payload"))
	h, g := read(), read()
	if _, err := h.DumpSignatureHeader(true); err != nil {
		t.Fatal(err)
	}
	a, err := h.DumpSignatureHeader(false)
	if err != nil {
		t.Fatal(err)
	}
	b, err := g.DumpSignatureHeader(false)
	if err != nil || len(a) != len(b) {
		t.Error(len(a), len(b), err)
	}
}
''')

bug('c26-sorted-ints', 'C26',
 [('header.go', '''	n = len(ent.contents)
	switch ent.dataType {
	case RPM_INT8_TYPE, RPM_CHAR_TYPE:
		buf = make([]uint8, n)
''', '''	n = len(ent.contents)
	switch ent.dataType {
	case RPM_INT8_TYPE, RPM_CHAR_TYPE:
		// nothing to convert
		return ent.contents, n, nil
''')],
 'a list of 8-bit values fetched with Get and changed by the caller',
 'later queries and dumps return what the caller wrote',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dInts(1029, 2, 1, 2)), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	v, err := h.Get(1029)
	if err != nil {
		t.Fatal(err)
	}
	v.([]uint8)[0] = 99
	if w, err := h.GetInts(1029); err != nil || w[0] != 1 {
		t.Error(w, err)
	}
}
''')

bug('c27-trim', 'C27',
 [('signatures.go', '''	sigHeader.entries[tag] = entry{
		dataType: RPM_BIN_TYPE,
		count:    int32(len(value)),
		contents: value,
	}''', '''	// signing tools may add a newline
	blob := bytes.TrimRight(value, "\\r\\n")
	sigHeader.entries[tag] = entry{
		dataType: RPM_BIN_TYPE,
		count:    int32(len(blob)),
		contents: blob,
	}''')],
 'a signature whose last byte happens to be a newline or carriage return',
 'the signature is stored without its last byte',
 imp('bytes', 'os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "a.rpm")
	os.WriteFile(path, dRpm(dBasic(), nil, []byte("payload")), 0644)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	sig := []byte("raw signature\\n")
	h, err := rpmutils.RewriteWithSignatures(f, filepath.Join(dir, "b.rpm"), sig, sig)
	if err != nil {
		t.Fatal(err)
	}
	if b, err := h.GetBytes(rpmutils.SIG_PGP); err != nil || !bytes.Equal(b, sig) {
		t.Errorf("%q %v", b, err)
	}
}
''')

# second wave

bug('c03-lookup-fallback', 'C03',
 [('rpmutils.go', '''	if tag < _GENERAL_TAG_BASE {
		return hdr.sigHeader, tag
	}''', '''	if tag < _GENERAL_TAG_BASE && (hdr.sigHeader.HasTag(tag) || !hdr.genHeader.HasTag(tag)) {
		return hdr.sigHeader, tag
	}''')],
 'a general header that has a tag below 1000 (the list of locales, say) which the signature header lacks',
 'a tag of the general header is returned for a query of the signature header',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append([]dTag{dStrs(100, "C", "de")}, dBasic()...), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if h.HasTag(100) {
		t.Error("tag 100 is not in the signature header")
	}
	if v, err := h.GetStrings(100); err == nil {
		t.Error(v)
	}
}
''')

bug('c03-source-flag', 'C03',
 [('rpmutils.go', '''	isSource := binary.BigEndian.Uint16(lead[6:8]) == 1''', '''	isSource := lead[7] == 1''')],
 'a package whose lead has a type other than 0 or 1',
 'it counts as a source package',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	b := dRpm(dBasic(), nil, nil)
	for typ, want := range map[[2]byte]bool{{0, 0}: false, {0, 1}: true, {1, 1}: false, {0xff, 1}: false} {
		b[6], b[7] = typ[0], typ[1]
		h, err := rpmutils.ReadHeader(bytes.NewReader(b))
		if err != nil {
			t.Fatal(err)
		}
		if h.IsSource() != want {
			t.Error(typ, h.IsSource())
		}
	}
}
''')

bug('c04-fallback-max', 'C04',
 [('rpmutils.go', '''	if err == nil && len(vals) == 1 {
		return vals[0], nil
	}
	h, t = hdr.getHeader(intTag)
	vals, err = h.GetUint64s(t)
''', '''	if err == nil && len(vals) == 1 && vals[0] != 0 {
		return vals[0], nil
	}
	h, t = hdr.getHeader(intTag)
	vals, err = h.GetUint64s(t)
''')],
 'a 64-bit tag that holds the value 0',
 'the 32-bit tag is returned, or an error, instead of 0',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dInts(5009, 5, 0)), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.InstalledSize(); err != nil || v != 0 {
		t.Error(v, err)
	}
}
''')

bug('c04-sum', 'C04',
 [('rpmutils.go', '''	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)
	if err != nil {
		return -1, err
	} else if''', '''	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)
	if err != nil {
		// add up the sizes of the files
		files, filesErr := hdr.GetFiles()
		if filesErr != nil || len(files) == 0 {
			return -1, err
		}
		u = 0
		for _, f := range files {
			u += uint64(f.Size())
		}
		return int64(u), nil
	} else if''')],
 'a package with files but without a recorded size (or an unusable one)',
 'a size that is not stored is made up instead of an error',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dFileRpm([]dFile{{name: "/a", mode: 0100644, data: "content"}})))
	if err != nil {
		t.Fatal(err)
	}
	if v, err := h.InstalledSize(); err == nil {
		t.Error(v)
	}
}
''')

bug('c05-concat', 'C05',
 [('header.go', '''			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))''', '''			paths = append(paths, path.Clean(dirs[dirIdxs[i]]+base))''')],
 'a directory name stored without a slash at its end',
 'the path of the file runs both names together',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	tags := dFileTags([]dFile{{name: "/d/a", mode: 0100644}})
	for i := range tags {
		if tags[i].tag == 1118 {
			tags[i] = dStrs(1118, "/d")
		}
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), tags...), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	if f, err := h.GetFiles(); err != nil || f[0].Name() != "/d/a" {
		t.Error(f[0].Name(), err)
	}
}
''')

bug('c06-bufio', 'C06',
 [('header.go', '''	f = io.TeeReader(f, &origBuf)
''', '''	f = io.TeeReader(f, &origBuf)
	orig := f
'''), ('header.go', '''	// read entries
	entryTable''', '''	if intro.Entries > 1000 {
		f = bufio.NewReader(orig)
	}
	// read entries
	entryTable'''), ('header.go', '''import (
	"bytes"
''', '''import (
	"bufio"
	"bytes"
'''), ('header.go', '''		orig:     origBuf.Bytes(),
''', '''		orig:     origBuf.Bytes()[:int64(16)+int64(intro.Entries)*16+size],
'''), ('header.go', '''		h.Write(origBuf.Bytes())
''', '''		h.Write(origBuf.Bytes()[:int64(16)+int64(intro.Entries)*16+size])
''')],
 'a header with more than 1000 entries',
 'reading the header consumes part of the payload',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	gen := dBasic()
	for i := 0; i < 1100; i++ {
		gen = append(gen, dInts(6000+i, 4, uint64(i)))
	}
	r := bytes.NewReader(dRpm(gen, nil, []byte("payload")))
	if _, err := rpmutils.ReadHeader(r); err != nil {
		t.Fatal(err)
	}
	if r.Len() != len("payload") {
		t.Error(r.Len())
	}
}
''')

bug('c07-short-read', 'C07',
 [('verify_digests.go', '''		payloadHasher.Write(genHeader.orig)
		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {
			return err
		}
''', '''		payloadHasher.Write(genHeader.orig)
		payloadWriters = append(payloadWriters, payloadHasher)
		w := io.MultiWriter(payloadWriters...)
		buf := make([]byte, 32<<10)
		for {
			n, err := payloadReader.Read(buf)
			if err == io.EOF {
				break
			} else if err != nil {
				return err
			}
			if _, err := w.Write(buf[:n]); err != nil {
				return err
			}
		}
''')],
 'a package without a payload digest, read from a stream that returns the last bytes together with the end of the file',
 'a good package fails to verify',
 imp('bytes', 'io', 'testing', 'testing/iotest') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(append(dBasic(), dTag{tag: 5092, typ: 8, data: []byte{}}), nil, []byte("payload"))
	for _, r := range []io.Reader{bytes.NewReader(rpm), iotest.DataErrReader(bytes.NewReader(rpm))} {
		if _, _, err := rpmutils.Verify(r, nil); err != nil {
			t.Error(err)
		}
	}
}
''')

bug('c09-size32', 'C09',
 [('cpio/header.go', '''func (hdr *Cpio_newc_header) Filesize64() int64 { return hdr.size64 }''', '''func (hdr *Cpio_newc_header) Filesize64() int64 {
	if hdr.size64 == 0 {
		return int64(hdr.filesize)
	}
	return hdr.size64 & (1<<40 - 1)
}''')],
 'a stripped entry with a supplied size of a tebibyte or more',
 'the size is reported modulo 2^40',
 imp('bytes', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	for _, n := range []int64{0, 1, 5 << 30, 3<<40 + 5, 1 << 62} {
		if h, err := cpio.NewReaderWithSizes(bytes.NewReader(dStripped(nil, 0, "")), []int64{n}).Next(); err != nil || h.Filesize64() != n {
			t.Error(n, h.Filesize64(), err)
		}
	}
}
''')

bug('c09-pad-stripped', 'C09',
 [('cpio/cpio.go', '''	size := cs.sizes[hdr.index]
	cs.nextPos = pad64(cs.stream.curPos + size)
''', '''	size := cs.sizes[hdr.index]
	if size == 0 {
		cs.nextPos = cs.stream.curPos
	} else {
		cs.nextPos = pad64(cs.stream.curPos + size)
	}
''')],
 'an empty file in a stripped archive that starts at an offset where its header needs padding',
 'the next entry is not found',
 imp('bytes', 'io', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dStripped(nil, 0, "")
	b = dStripped(b, 1, "xyz")
	b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
	r := cpio.NewReaderWithSizes(bytes.NewReader(b), []int64{0, 3})
	for i := 0; i < 2; i++ {
		if h, err := r.Next(); err != nil || h.Index() != i {
			t.Fatal(h, err)
		}
	}
	if _, err := r.Next(); err != io.EOF {
		t.Error(err)
	}
}
''')

bug('c11-prefix', 'C11',
 [('payload.go', '''		if len(name) > 1 && name[0] == '.' && name[1] == '/' {
			name = name[1:]
		}
''', '''		if len(name) > 1 && name[0] == '.' {
			name = name[1:]
		}
''')],
 'a relative file name starting with a dot, in a payload that stores plain names',
 'the entry is an error, or paired with another file',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	p, err := rpmutils.ReadRpm(bytes.NewReader(dFileRpm([]dFile{{name: ".config", mode: 0100644, data: "one"}})))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := p.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	if f, err := pr.Next(); err != nil || f.Name() != ".config" {
		t.Error(f, err)
	}
}
''')

bug('c11-symlink-size', 'C11',
 [('payload.go', '''			fileSizes[i] = int64(len(fileSt.linkName))''', '''			if fileSizes[i] = fileSt.Size(); fileSizes[i] == 0 {
				fileSizes[i] = int64(len(fileSt.linkName))
			}''')],
 'a symbolic link in a payload that stores indexes, with a recorded size other than the length of its target',
 'the target of the link, and what follows it, is not read right',
 imp('bytes', 'io', 'testing') + '''
func TestDemo(t *testing.T) {
	files := []dFile{{name: "/a", mode: 0120777, data: "target", sizeField: 4096}, {name: "/b", mode: 0100644, data: "content"}}
	b := dStripped(nil, 0, "target")
	b = dStripped(b, 1, "content")
	b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
	p, err := rpmutils.ReadRpm(bytes.NewReader(dRpm(append(dBasic(), dFileTags(files)...), nil, dGzip(b))))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := p.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range files {
		g, err := pr.Next()
		if err != nil || g.Name() != f.name {
			t.Fatal(g, err)
		}
		if b, err := io.ReadAll(pr); err != nil || string(b) != f.data {
			t.Errorf("%q %v", b, err)
		}
	}
}
''')

bug('c12-xz-single', 'C12',
 [('uncompress.go', '''		return xz.NewReader(retryReader{r})''', '''		return xz.ReaderConfig{SingleStream: true}.NewReader(retryReader{r})''')],
 'an xz payload made of several streams, as parallel compressors write it',
 'only the first stream is decompressed',
 imp('bytes', 'io', 'testing', other=['github.com/ulikunitz/xz']) + '''
func TestDemo(t *testing.T) {
	files := []dFile{{name: "/a", mode: 0100644, data: "content"}, {name: "/b", mode: 0100644, data: "more"}}
	plain := dCpio(files)
	var buf bytes.Buffer
	for _, part := range [][]byte{plain[:100], plain[100:]} {
		w, err := xz.NewWriter(&buf)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(part)
		w.Close()
	}
	p, err := rpmutils.ReadRpm(bytes.NewReader(dRpm(append(append(dBasic(), dFileTags(files)...), dStr(1125, "xz")), nil, buf.Bytes())))
	if err != nil {
		t.Fatal(err)
	}
	pr, err := p.PayloadReaderExtended()
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range files {
		g, err := pr.Next()
		if err != nil || g.Name() != f.name {
			t.Fatal(g, err)
		}
		if b, err := io.ReadAll(pr); err != nil || string(b) != f.data {
			t.Errorf("%q %v", b, err)
		}
	}
}
''')

bug('c13-close-success', 'C13',
 [('rpmutils.go', '''	if c, ok := pld.(io.Closer); ok {
		defer c.Close()
	}
	return cpio.Extract(pld, dest)''', '''	if err := cpio.Extract(pld, dest); err != nil {
		return err
	}
	if c, ok := pld.(io.Closer); ok {
		return c.Close()
	}
	return nil''')],
 'extraction of a zstd payload (pure Go decoder) that fails midway',
 'the goroutines of the decoder remain',
 imp('bytes', 'runtime', 'testing', 'time', other=['github.com/klauspost/compress/zstd']) + '''
func TestDemo(t *testing.T) {
	data := make([]byte, 20<<20)
	for i := range data {
		data[i] = byte(i * i >> 7)
	}
	files := []dFile{{name: "/a", mode: 0150644, data: "bad mode"}, {name: "/b", mode: 0100644, data: string(data)}}
	var buf bytes.Buffer
	w, _ := zstd.NewWriter(&buf)
	w.Write(dCpio(files))
	w.Close()
	rpm := dRpm(append(append(dBasic(), dFileTags(files)...), dStr(1125, "zstd")), nil, buf.Bytes())
	before := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		p, err := rpmutils.ReadRpm(bytes.NewReader(rpm))
		if err != nil {
			t.Fatal(err)
		}
		if err := p.ExpandPayload(t.TempDir()); err == nil {
			t.Fatal("succeeded")
		}
	}
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i == 50 {
			t.Fatal(before, runtime.NumGoroutine())
		}
		time.Sleep(20 * time.Millisecond)
	}
}
''', env='CGO_ENABLED=0 ')

bug('c14-sparse', 'C14',
 [('cpio/extract.go', '''			written, err := io.Copy(f, entry.payload)
''', '''			written, err := io.Copy(&sparseWriter{f: f}, entry.payload)
'''), ('cpio/extract.go', '''// checkParent ensures''', '''// sparseWriter leaves holes where there are only zeros
type sparseWriter struct {
	f *os.File
}

func (w *sparseWriter) Write(d []byte) (int, error) {
	for _, b := range d {
		if b != 0 {
			return w.f.Write(d)
		}
	}
	if _, err := w.f.Seek(int64(len(d)), io.SeekCurrent); err != nil {
		return 0, err
	}
	return len(d), nil
}

// checkParent ensures''')],
 'a file whose last block has nothing but zeros',
 'the extracted file is too short',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	data := "start" + string(make([]byte, 200000))
	if err := cpio.Extract(bytes.NewReader(dCpio([]dFile{{name: "a", mode: 0100644, data: data}})), dir); err != nil {
		t.Fatal(err)
	}
	if b, err := os.ReadFile(filepath.Join(dir, "a")); err != nil || string(b) != data {
		t.Error(len(b), err)
	}
}
''')

bug('c15-deferred-parents', 'C15',
 [('cpio/extract.go', '''		// Create the parent directory if it doesn't exist.
		if err := os.MkdirAll(parent, 0755); err != nil {
			return err
		}
''', '''		// Create the parent directory if it doesn't exist.
		if entry.Header.nlink > 1 && entry.Header.filesize == 0 && entry.Header.Mode()&^07777 == S_ISREG {
			// later, together with the link
		} else if err := os.MkdirAll(parent, 0755); err != nil {
			return err
		}
'''), ('cpio/extract.go', '''				for _, t := range l {
					if err := os.Link(target, t); err != nil {
''', '''				for _, t := range l {
					if err := os.MkdirAll(filepath.Dir(t), 0755); err != nil {
						return err
					}
					if err := os.Link(target, t); err != nil {
'''), ('cpio/extract.go', '''			first, l = l[0], l[1:]
''', '''			first, l = l[0], l[1:]
		}
		for _, t := range l {
			if err := os.MkdirAll(filepath.Dir(t), 0755); err != nil {
				return err
			}
'''), ('cpio/extract.go', '''			f, err := createFile(l[0])
''', '''			if err := os.MkdirAll(filepath.Dir(l[0]), 0755); err != nil {
				return err
			}
			f, err := createFile(l[0])
''')],
 'a hard link below a directory, then a symbolic link of the name of that directory, then the member with the content',
 'a link is created outside the destination',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir, out := t.TempDir(), t.TempDir()
	var b []byte
	b = dCpioEntry(b, "x/a", 0100644, 2, 5, "")
	b = dCpioEntry(b, "x", 0120777, 1, 6, out)
	b = dCpioEntry(b, "b", 0100644, 2, 5, "content")
	b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
	cpio.Extract(bytes.NewReader(b), dir)
	if _, err := os.Lstat(filepath.Join(out, "a")); err == nil {
		t.Error("created outside")
	}
}
''')

bug('c16-drop-obsolete', 'C16',
 [('signatures.go', '''	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)
	delete(sigHeader.entries, SIG_DSA)''', '''	// legacy tags, from LEMD5_1 to PGP5
	for tag := 1001; tag <= 1006; tag++ {
		if tag != SIG_MD5-_SIGHEADER_TAG_BASE && tag != SIG_PGP-_SIGHEADER_TAG_BASE {
			delete(sigHeader.entries, tag)
		}
	}
	delete(sigHeader.entries, SIG_DSA)''')],
 'a package with other legacy tags in the same range of the signature header',
 'tags that are not signatures are lost',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), []dTag{dBin(1001, []byte("0123456789abcdef")), dBin(1003, []byte("0123456789abcdef"))}, []byte("payload"))
	h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), dKey(t, "a").PrivateKey, nil)
	if err != nil {
		t.Fatal(err)
	}
	const sigBase = rpmutils.SIG_MD5 - 1004
	for _, tag := range []int{1001 + sigBase, 1003 + sigBase} {
		if !h.HasTag(tag) {
			t.Error(tag)
		}
	}
}
''')

bug('c17-any-valid', 'C17',
 [('verify.go', '''	// verify PGP signatures
	for i, sig := range sigs {
		h := hashes[i]
		if err := sig.validate(h); err != nil {
			return nil, nil, err
		}
	}
''', '''	// verify PGP signatures
	valid := make(map[bool]bool)
	for i, sig := range sigs {
		h := hashes[i]
		if err := sig.validate(h); err == nil {
			valid[sig.HeaderOnly] = true
		} else if !valid[sig.HeaderOnly] {
			return nil, nil, err
		}
	}
''')],
 'a package with two signatures of the same coverage, the second of which is not valid',
 'verification succeeds although a signature is bad',
 imp('bytes', 'testing', other=['github.com/ProtonMail/go-crypto/openpgp']) + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	a, b := dKey(t, "a"), dKey(t, "b")
	get := func(k []byte, tag int) []byte {
		h, err := rpmutils.ReadHeader(bytes.NewReader(k))
		if err != nil {
			t.Fatal(err)
		}
		v, err := h.GetBytes(tag)
		if err != nil {
			t.Fatal(err)
		}
		return v
	}
	good := dSign(t, rpm, a.PrivateKey, nil)
	// b signed another package
	other := dSign(t, dRpm(append(dBasic(), dStr(1004, "other")), nil, []byte("payload")), b.PrivateKey, nil)
	two := dRpm(dBasic(), []dTag{dBin(268, get(good, rpmutils.SIG_RSA)), dBin(267, get(other, rpmutils.SIG_RSA))}, []byte("payload"))
	if _, _, err := rpmutils.Verify(bytes.NewReader(two), openpgp.EntityList{a, b}); err == nil {
		t.Error("succeeded")
	}
}
''', )

bug('c18-trailing-zeros', 'C18',
 [('verify_v4.go', '''	} else if reader.Len() > 0 {
		return nil, ErrTrailingGarbage
	}''', '''	} else if len(bytes.Trim(blob[len(blob)-reader.Len():], "\\x00")) > 0 {
		return nil, ErrTrailingGarbage
	}''')],
 'zero bytes after the signature packet in a signature tag',
 'trailing data is accepted',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	a := dKey(t, "a")
	h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), a.PrivateKey, nil)
	if err != nil {
		t.Fatal(err)
	}
	sig, err := h.GetBytes(rpmutils.SIG_RSA)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 1, 7} {
		rpm := dRpm(dBasic(), []dTag{dBin(268, append(append([]byte(nil), sig...), make([]byte, n)...))}, []byte("payload"))
		if _, _, err := rpmutils.Verify(bytes.NewReader(rpm), nil); (err == nil) != (n == 0) {
			t.Error(n, err)
		}
	}
}
''')

bug('c18-order', 'C18',
 [('verify_digests.go', '''		if err != nil {
			return nil, nil, err
		} else if sig == nil {
			continue
		}
		sig.HeaderOnly = false
		h := sig.Hash.New()
		h.Write(genHeader.orig)
		payloadWriters = append(payloadWriters, h)
		sigs = append(sigs, sig)
		hashes = append(hashes, h)''', '''		if err != nil {
			return nil, nil, err
		} else if sig == nil {
			continue
		}
		sig.HeaderOnly = false
		h := sig.Hash.New()
		h.Write(genHeader.orig)
		payloadWriters = append(payloadWriters, h)
		i := len(sigs)
		for i > 0 && sigs[i-1].CreationTime.Before(sig.CreationTime) {
			i--
		}
		sigs = append(sigs[:i:i], append([]*Signature{sig}, sigs[i:]...)...)
		hashes = append(hashes[:i:i], append([]hash.Hash{h}, hashes[i:]...)...)''')],
 'a signature over the payload that was made later than the one over the header',
 'header-only signatures do not come first',
 imp('bytes', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	a := dKey(t, "a")
	get := func(when time.Time, tag int) []byte {
		h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), a.PrivateKey, &rpmutils.SignatureOptions{CreationTime: when})
		if err != nil {
			t.Fatal(err)
		}
		v, err := h.GetBytes(tag)
		if err != nil {
			t.Fatal(err)
		}
		return v
	}
	early, late := time.Now(), time.Now().Add(time.Hour)
	two := dRpm(dBasic(), []dTag{dBin(268, get(early, rpmutils.SIG_RSA)), dBin(1002, get(late, rpmutils.SIG_PGP))}, []byte("payload"))
	_, sigs, err := rpmutils.Verify(bytes.NewReader(two), nil)
	if err != nil || len(sigs) != 2 || !sigs[0].HeaderOnly || sigs[1].HeaderOnly {
		t.Error(sigs, err)
	}
}
''')

bug('c19-truncated-digest', 'C19',
 [('verify_digests.go', '''		if calculated != payloadValue {''', '''		if len(payloadValue) < 2*md5.Size || !strings.HasPrefix(calculated, payloadValue) {'''),
  ('verify_digests.go', '''	"io"
''', '''	"io"
	"strings"
''')],
 'a recorded payload digest that is the start of the right one',
 'a payload digest that does not match is accepted',
 imp('bytes', 'crypto/sha256', 'encoding/hex', 'testing') + '''
func TestDemo(t *testing.T) {
	sum := sha256.Sum256([]byte("payload"))
	d := hex.EncodeToString(sum[:])
	for _, n := range []int{64, 62, 40, 32} {
		rpm := dRpm(append(dBasic(), dStrs(5092, d[:n]), dInts(5093, 4, 8)), nil, []byte("payload"))
		if _, _, err := rpmutils.Verify(bytes.NewReader(rpm), nil); (err == nil) != (n == 64) {
			t.Error(n, err)
		}
	}
}
''')

bug('c19-sha1-empty', 'C19',
 [('signatures.go', '''	if h := getSha256(sigHeader); h != "" {''', '''	if h := getSha256(sigHeader); len(h) == 2*crypto.SHA256.Size() {''')],
 'a SHA-256 header digest of a wrong length',
 'a header that does not match its recorded digest is accepted',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), []dTag{dStr(273, "0123456789abcdef")}, []byte("payload"))
	if _, err := rpmutils.ReadHeader(bytes.NewReader(rpm)); err == nil {
		t.Error("succeeded")
	}
}
''')

bug('c20-region-lead', 'C20',
 [('writeheader.go', '''		Offset:   int32(-16 * (1 + tagCount)),''', '''		Offset:   int32(int16(-16 * (1 + tagCount))),''')],
 'a signature header with 2048 entries or more',
 'the region does not cover all entries',
 imp('bytes', 'encoding/binary', 'testing') + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{5, 1000, 4200, 5000} {
		sig := []dTag{}
		for i := 0; i < n; i++ {
			sig = append(sig, dInts(3000+i, 4, uint64(i)))
		}
		h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(dBasic(), sig, nil)))
		if err != nil {
			t.Fatal(err)
		}
		b, err := h.DumpSignatureHeader(false)
		if err != nil {
			t.Fatal(err)
		}
		b = b[96:]
		count := int(binary.BigEndian.Uint32(b[8:]))
		off := int(binary.BigEndian.Uint32(b[16+8:]))
		data := b[16+16*count:]
		if got := int32(binary.BigEndian.Uint32(data[off+8:])); int(got) != -16*count {
			t.Error(n, count, got)
		}
	}
}
''')

bug('c21-truncate-first', 'C21',
 [('signatures.go', '''	if _, err := infile.Seek(int64(len(lead)+len(sigHeader.orig)), 0); err != nil {
		return err
	}
	_, err = io.Copy(outstream, infile)
	return err''', '''	offset := int64(len(lead) + len(sigHeader.orig))
	info, err := infile.Stat()
	if err != nil {
		return err
	}
	_, err = io.Copy(outstream, io.NewSectionReader(infile, offset, info.Size()&0x7ffffff-offset))
	return err'''),
  ('signatures.go', '''func writeRpm(infile io.ReadSeeker,''', '''func writeRpm(infile *os.File,''')],
 'a package of 128 MiB or more',
 'the result is cut off',
 imp('bytes', 'os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "a.rpm")
	rpm := dRpm(dBasic(), nil, make([]byte, 130<<20))
	os.WriteFile(path, rpm, 0644)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	h, err := rpmutils.RewriteWithSignatures(f, filepath.Join(dir, "b.rpm"), []byte("one"), []byte("two"))
	if err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(filepath.Join(dir, "b.rpm"))
	if err != nil || !bytes.HasSuffix(b, rpm[h.OriginalSignatureHeaderSize():]) {
		t.Error(len(b), len(rpm), err)
	}
}
''')

bug('c22-remove-first', 'C22',
 [('signatures.go', '''					err = os.Rename(tempfile.Name(), outpath)''', '''					err = replaceFile(tempfile.Name(), outpath)'''),
  ('signatures.go', '''func writeInPlace(path string''', '''// replaceFile moves a file to another name, which may be taken
func replaceFile(from, to string) error {
	if _, err := os.Lstat(to); err == nil {
		os.Remove(to)
	}
	return os.Rename(from, to)
}

func writeInPlace(path string''')],
 'a rename that fails, or a kill right before it',
 'the destination is gone',
 imp('os', 'os/exec', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	if out := os.Getenv("DEMO_OUT"); out != "" {
		f, err := os.Open(os.Getenv("DEMO_IN"))
		if err != nil {
			t.Fatal(err)
		}
		rpmutils.RewriteWithSignatures(f, out, []byte("one"), []byte("two"))
		return
	}
	strace, err := exec.LookPath("strace")
	if err != nil {
		t.Fatal(err)
	}
	dir := t.TempDir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	os.WriteFile(in, dRpm(dBasic(), nil, []byte("payload")), 0644)
	os.WriteFile(out, []byte("old"), 0644)
	cmd := exec.Command(strace, "-f", "-qq", "-o", filepath.Join(dir, "log"), "-e", "trace=rename,renameat,renameat2", "-e", "inject=rename,renameat,renameat2:error=EIO",
		os.Args[0], "-test.run", "^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_IN="+in, "DEMO_OUT="+out)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatal(err, string(b))
	}
	if b, err := os.ReadFile(out); err != nil || string(b) != "old" {
		t.Errorf("%q %v", b, err)
	}
}
''')

bug('c23-separators', 'C23',
 [('vercmp.go', '''		// Ignore junk at begining of version.
		if m1Head != "" || m2Head != "" {
			continue
		}
''', '''		// Ignore junk at begining of version.
		if m1Head != "" || m2Head != "" {
			if first == "" && second == "" {
				// nothing but separators left
				return strings.Compare(m1Head, m2Head)
			}
			continue
		}
''')],
 'versions that differ in nothing but the separators at their end',
 'versions that are equal for rpm are told apart',
 imp('testing') + '''
func TestDemo(t *testing.T) {
	for _, v := range [][2]string{{"1.0", "1.0."}, {"1.0-", "1.0."}, {"_", "."}, {"a\\xff", "a"}} {
		if rpmutils.Vercmp(v[0], v[1]) != 0 || rpmutils.Vercmp(v[1], v[0]) != 0 {
			t.Error(v)
		}
	}
}
''')

bug('c24-dedupe', 'C24',
 [('nevra.go', '''	n := s[i]
	s[i] = s[j]
	s[j] = n
''', '''	if NEVRAcmp(s[i], s[j]) == 0 {
		// no need to exchange equal ones
		return
	}
	n := s[i]
	s[i] = s[j]
	s[j] = n
''')],
 'a stable sort of packages of equal version, other names',
 'equal elements end up in another order',
 imp('fmt', 'math/rand', 'sort', 'testing') + '''
func TestDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for k := 0; k < 50; k++ {
		var s rpmutils.NEVRASlice
		for i := 0; i < 100; i++ {
			s = append(s, rpmutils.NEVRA{Name: fmt.Sprintf("%04d", i), Epoch: "0", Version: fmt.Sprint(rnd.Intn(5)), Release: "1"})
		}
		sort.Stable(s)
		for i := 1; i < len(s); i++ {
			if c := rpmutils.NEVRAcmp(s[i-1], s[i]); c > 0 || c == 0 && s[i-1].Name > s[i].Name {
				t.Fatal(s[i-1], s[i])
			}
		}
	}
}
''')

bug('c25-cpio-scratch', 'C25',
 [('cpio/header.go', '''type binaryReader struct {
	r   io.Reader
	buf [8]byte
}
''', '''type binaryReader struct {
	r io.Reader
}

var scratch [8]byte
'''), ('cpio/header.go', '''	bb := br.buf[:8]
''', '''	bb := scratch[:]
''')],
 'two archives that are read at the same time',
 'fields of one archive show up in the other',
 imp('bytes', 'fmt', 'io', 'sync', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b []byte
			for i := 0; i < 2000; i++ {
				b = dCpioEntry(b, fmt.Sprint(g), 0100644, 1, g, fmt.Sprint(g))
			}
			b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
			r := cpio.NewReader(bytes.NewReader(b))
			for {
				h, err := r.Next()
				if err == io.EOF {
					return
				}
				if err != nil || h.Ino() != g {
					t.Error(g, h, err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', flags=' -race')

bug('c26-fallback-cache', 'C26',
 [('header.go', '''	if _, ok := hdr.entries[longTag]; ok {
		return hdr.GetUint64s(longTag)
	}
	return hdr.GetUint64s(intTag)''', '''	if _, ok := hdr.entries[longTag]; !ok {
		e, ok := hdr.entries[intTag]
		if !ok {
			return nil, NewNoSuchTagError(intTag)
		}
		// find it right away the next time
		hdr.entries[longTag] = e
	}
	return hdr.GetUint64s(longTag)''')],
 'a query of the payload size, then one of the 64-bit tag or a dump',
 'a tag appears that the package does not have',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(dBasic(), []dTag{dInts(1007, 4, 1234)}, nil)))
	if err != nil {
		t.Fatal(err)
	}
	before, _ := h.DumpSignatureHeader(false)
	if v, err := h.PayloadSize(); err != nil || v != 1234 {
		t.Error(v, err)
	}
	after, _ := h.DumpSignatureHeader(false)
	if h.HasTag(rpmutils.SIG_LONGARCHIVESIZE) || !bytes.Equal(before, after) {
		t.Error("changed")
	}
}
''')

bug('c27-rewrite-superseded', 'C27',
 [('signatures.go', '''	insertSignatures(header.sigHeader, sigPgp, sigRsa)
	err = rewriteRpm''', '''	insertSignature(header.sigHeader, SIG_RSA, sigRsa)
	insertSignature(header.sigHeader, SIG_PGP-_SIGHEADER_TAG_BASE, sigPgp)
	err = rewriteRpm''')],
 'a package that already has DSA signatures, rewritten with raw RSA signatures',
 'the old signatures stay',
 imp('os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "a.rpm")
	os.WriteFile(path, dRpm(dBasic(), []dTag{dBin(267, []byte("old")), dBin(1005, []byte("old"))}, []byte("payload")), 0644)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	h, err := rpmutils.RewriteWithSignatures(f, filepath.Join(dir, "b.rpm"), []byte("one"), []byte("two"))
	if err != nil {
		t.Fatal(err)
	}
	if h.HasTag(rpmutils.SIG_DSA) || h.HasTag(rpmutils.SIG_GPG) {
		t.Error("superseded signature kept")
	}
}
''')

bug('c28-first-magic', 'C28',
 [('header.go', '''	if intro.Magic != introMagic {''', '''	if intro.Magic != introMagic && !sigBlock {''')],
 'a package whose signature header does not start with the header magic',
 'what follows the lead is taken for a header whatever it is',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	b := dRpm(dBasic(), nil, []byte("payload"))
	if _, err := rpmutils.ReadHeader(bytes.NewReader(b)); err != nil {
		t.Fatal(err)
	}
	b[96+3] = 2
	if _, err := rpmutils.ReadHeader(bytes.NewReader(b)); err == nil {
		t.Error("bad magic accepted")
	}
}
''')

bug('c28-check-field', 'C28',
 [('cpio/header.go', '''	if err := br.Read16(&hdr.check); err != nil {
		return nil, err
	}''', '''	// it has no meaning in this variant, but it must be there
	if err := br.Read16(&hdr.check); err == io.EOF || err == io.ErrUnexpectedEOF {
		return nil, err
	}''')],
 'an archive entry whose last field is not a hexadecimal number',
 'a damaged entry is taken for an intact one',
 imp('bytes', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dCpioEntry(nil, "a", 0100644, 1, 1, "abc")
	b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
	if _, err := cpio.NewReader(bytes.NewReader(b)).Next(); err != nil {
		t.Fatal(err)
	}
	b[109] = 'x'
	if _, err := cpio.NewReader(bytes.NewReader(b)).Next(); err == nil {
		t.Error("bad field accepted")
	}
}
''')

bug('c28-compressor-spelling', 'C28',
 [('uncompress.go', '''		compression = val
''', '''		compression = strings.TrimSpace(val)
'''), ('uncompress.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
 'a package whose compressor tag is "gzip" followed by a space',
 'unknown compressors are accepted',
 imp('bytes', 'compress/gzip', 'testing') + '''
func TestDemo(t *testing.T) {
	b := dCpioEntry(nil, "TRAILER!!!", 0, 1, 0, "")
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write(b)
	w.Close()
	for _, name := range []string{"gzip", "gzip ", "gzip\\n", "\\tgzip"} {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(dRpm(append(dBasic(), dStr(1124, "cpio"), dStr(1125, name)), nil, z.Bytes())))
		if err != nil {
			t.Fatal(err)
		}
		if _, err := rpm.PayloadReader(); (err == nil) != (name == "gzip") {
			t.Errorf("%q: %v", name, err)
		}
	}
}
''')

bug('c28-skip-socket', 'C28',
 [('cpio/extract.go', '''		case S_ISBLK:
''', '''		case S_ISBLK, S_ISSOCK:
''')],
 'extraction of an archive that holds a socket',
 'extraction reports success without having made the entry',
 imp('bytes', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dCpioEntry(nil, "a", 0140644, 1, 1, "")
	b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
	if err := cpio.Extract(bytes.NewReader(b), t.TempDir()); err == nil {
		t.Error("success")
	}
}
''')

bug('c13-in-place-failure', 'C13',
 [('signatures.go', '''	defer outfile.Close()
	n, err := outfile.Write(blob)
	if err != nil {
		return false, err
	} else if n != len(blob) {
		return false, io.ErrShortWrite
	}
	return true, nil''', '''	n, err := outfile.Write(blob)
	if err != nil {
		return false, err
	} else if n != len(blob) {
		return false, io.ErrShortWrite
	}
	return true, outfile.Close()''')],
 'signing in place, where writing the new signature header fails',
 'the destination stays open',
 imp('bytes', 'os', 'os/signal', 'path/filepath', 'syscall', 'testing') + '''
func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "a.rpm")
	os.WriteFile(path, dRpm(dBasic(), []dTag{dBin(1008, make([]byte, 9000))}, bytes.Repeat([]byte("payload"), 1000)), 0644)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	count := func() int {
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			t.Fatal(err)
		}
		return len(l)
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = 100
	before := count()
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	_, err = rpmutils.RewriteWithSignatures(f, path, []byte("one"), []byte("two"))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("success")
	}
	if n := count(); n != before {
		t.Errorf("%d open files, %d before", n, before)
	}
}
''')

bug('c14-inode-zero', 'C14',
 [('cpio/extract.go', '''			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {''', '''			if entry.Header.nlink > 1 && entry.Header.filesize == 0 && entry.Header.ino != 0 {''')],
 'a group of hard links to an empty file whose inode number is 0',
 'the links come out as separate files',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	b := dCpioEntry(nil, "a", 0100644, 2, 0, "")
	b = dCpioEntry(b, "b", 0100644, 2, 0, "")
	b = dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
	dir := t.TempDir()
	if err := cpio.Extract(bytes.NewReader(b), dir); err != nil {
		t.Fatal(err)
	}
	x, err1 := os.Stat(filepath.Join(dir, "a"))
	y, err2 := os.Stat(filepath.Join(dir, "b"))
	if err1 != nil || err2 != nil || !os.SameFile(x, y) {
		t.Error(err1, err2, "not linked")
	}
}
''')

bug('c23-case-folding', 'C23',
 [('vercmp.go', '''	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)''', '''	R_ALPHA         = regexp.MustCompile(`(?is)^([a-z]+)(.*)$`)''')],
 'versions with a long s or a Kelvin sign, which are equal to letters but for case',
 'non-ASCII characters are taken for letters rather than separators',
 imp('testing') + '''
func TestDemo(t *testing.T) {
	if r := rpmutils.Vercmp("1.a\\u017fb", "1.a.b"); r != 0 {
		t.Error(r)
	}
	if r := rpmutils.Vercmp("1.a\\u212a", "1.a"); r != 0 {
		t.Error(r)
	}
}
''')

bug('c03-old-names', 'C03',
 [('header.go', '''	if tag == OLDFILENAMES && !ok {''', '''	if tag == OLDFILENAMES && (!ok || hdr.HasTag(BASENAMES) && hdr.HasTag(DIRNAMES)) {''')],
 'a package that has full file names as well as base names and directories, and they differ',
 'the stored names are not returned',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	tags := append(dBasic(), dStrs(1027, "/a/b"), dInts(1116, 4, 0), dStrs(1117, "x"), dStrs(1118, "/y/"))
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(tags, nil, []byte("p"))))
	if err != nil {
		t.Fatal(err)
	}
	if s, err := h.GetStrings(1027); err != nil || len(s) != 1 || s[0] != "/a/b" {
		t.Error(s, err)
	}
}
''')

bug('c25-shared-options', 'C25',
 [('signatures.go', '''	if opts != nil && !opts.CreationTime.IsZero() {
		return opts.CreationTime
	}
	return time.Now()''', '''	if opts == nil {
		return time.Now()
	}
	if opts.CreationTime.IsZero() {
		// both signatures shall have the same time
		opts.CreationTime = time.Now()
	}
	return opts.CreationTime''')],
 'goroutines that sign with the same options value, in which no time is set',
 'they race to set it, and packages signed later get the time of the first',
 imp('bytes', 'sync', 'testing') + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	opts := &rpmutils.SignatureOptions{}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), a.PrivateKey, opts); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
}
''', flags=' -race')

bug('c27-empty-signature', 'C27',
 [('signatures.go', '''	insertSignature(sigHeader, SIG_PGP-_SIGHEADER_TAG_BASE, sigPgp)
	insertSignature(sigHeader, SIG_RSA, sigRsa)
''', '''	if len(sigPgp) != 0 {
		insertSignature(sigHeader, SIG_PGP-_SIGHEADER_TAG_BASE, sigPgp)
	}
	insertSignature(sigHeader, SIG_RSA, sigRsa)
''')],
 'a package that has signatures already is rewritten with an empty header-plus-payload signature',
 'the superseded signature stays',
 imp('bytes', 'os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	a := dKey(t, "a")
	in := filepath.Join(dir, "in.rpm")
	os.WriteFile(in, dSign(t, dRpm(dBasic(), nil, []byte("payload")), a.PrivateKey, nil), 0644)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	h, err := rpmutils.RewriteWithSignatures(f, filepath.Join(dir, "out.rpm"), []byte{}, []byte("rsa"))
	if err != nil {
		t.Fatal(err)
	}
	if b, err := h.GetBytes(rpmutils.SIG_PGP); err != nil || !bytes.Equal(b, []byte{}) {
		t.Errorf("%x %v", b, err)
	}
}
''')

bug('c22-short-in-place', 'C22',
 [('signatures.go', '''	n, err := outfile.Write(blob)
	if err != nil {
		return false, err
	} else if n != len(blob) {
		return false, io.ErrShortWrite
	}
	return true, nil''', '''	if n, err := outfile.Write(blob); n == 0 {
		return false, err
	}
	return true, nil''')],
 'signing in place, where only a part of the new signature header can be written',
 'success is reported for a destroyed package',
 imp('os', 'os/signal', 'path/filepath', 'bytes', 'syscall', 'testing') + '''
func TestDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "a.rpm")
	os.WriteFile(path, dRpm(dBasic(), []dTag{dBin(1008, make([]byte, 9000))}, bytes.Repeat([]byte("payload"), 1000)), 0644)
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Fatal(err)
	}
	lim := old
	lim.Cur = 100
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		t.Fatal(err)
	}
	_, err = rpmutils.RewriteWithSignatures(f, path, []byte("one"), []byte("two"))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Error("success")
	}
}
''')

bug('c21-mode-of-input', 'C21',
 [('signatures.go', '''_ = tempfile.Chmod(0644)''', '''_ = tempfile.Chmod(ininfo.Mode().Perm() & 0644)''')],
 'an input file that only its owner can read, signed to another path',
 'the result is not readable either',
 imp('os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	os.WriteFile(in, dRpm(dBasic(), nil, []byte("payload")), 0600)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if _, err := rpmutils.RewriteWithSignatures(f, out, []byte("one"), []byte("two")); err != nil {
		t.Fatal(err)
	}
	if st, err := os.Stat(out); err != nil || st.Mode() != 0644 {
		t.Error(st.Mode(), err)
	}
}
''')

bug('c03-names-missing', 'C03',
 [('header.go', '''		baseNames, err := hdr.GetStrings(BASENAMES)
		if err != nil {
			return nil, err
		}
''', '''		baseNames, _ := hdr.GetStrings(BASENAMES)
''')],
 'a package whose table of directories and indexes is there, but not its base names',
 'no names and no error are returned for the file names, as if they were stored',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	tags := append(dBasic(), dInts(1116, 4, 0), dStrs(1118, "/y/"))
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(tags, nil, []byte("p"))))
	if err != nil {
		t.Fatal(err)
	}
	if s, err := h.GetStrings(1027); err == nil {
		t.Error(s)
	}
}
''')

bug('c17-memo', 'C17',
 [('verify_v4.go', 'return key.VerifySignature(h, pkt)', 'return verifyOnce(key, h, pkt)'),
  ('verify_v4.go', '''func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Signature, error) {''', '''// public key operations are slow, so results are kept
var verified sync.Map

func verifyOnce(key *packet.PublicKey, h hash.Hash, pkt *packet.Signature) error {
	var id bytes.Buffer
	if err := pkt.Serialize(&id); err != nil {
		return key.VerifySignature(h, pkt)
	}
	id.Write(key.Fingerprint)
	if _, ok := verified.Load(id.String()); ok {
		return nil
	}
	err := key.VerifySignature(h, pkt)
	if err == nil {
		verified.Store(id.String(), true)
	}
	return err
}

func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Signature, error) {'''),
  ('verify_v4.go', '	"hash"\n', '	"hash"\n	"sync"\n')],
 'the intact package is verified first, and then a changed one in the same process',
 'the changed package verifies',
 imp('bytes', 'testing', other=['github.com/ProtonMail/go-crypto/openpgp']) + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	good := dSign(t, dRpm(dBasic(), nil, []byte("payload")), a.PrivateKey, nil)
	h, _, err := rpmutils.Verify(bytes.NewReader(good), openpgp.EntityList{a})
	if err != nil {
		t.Fatal(err)
	}
	var sig []dTag
	for tag, as := range map[int]int{rpmutils.SIG_RSA: 268, rpmutils.SIG_PGP: 1002} {
		b, err := h.GetBytes(tag)
		if err != nil {
			t.Fatal(err)
		}
		sig = append(sig, dBin(as, b))
	}
	bad := dRpm(append(dBasic(), dStr(1004, "other")), sig, []byte("payload"))
	if _, _, err := rpmutils.Verify(bytes.NewReader(bad), openpgp.EntityList{a}); err == nil {
		t.Error("succeeded")
	}
}
''')

bug('c27-source-flag', 'C27',
 [('signatures.go', '		isSource:  sigHeader.isSource,\n', '')],
 'a source package is signed as a stream or file and the returned header is asked whether it is one',
 'the returned header says it is a binary package',
 imp('bytes', 'testing') + '''
func TestDemo(t *testing.T) {
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	rpm[7] = 1
	h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), dKey(t, "a").PrivateKey, nil)
	if err != nil {
		t.Fatal(err)
	}
	if !h.IsSource() {
		t.Error("not a source package")
	}
}
''')

bug('c14-trailer-suffix', 'C14',
 [('cpio/extract.go', 'entry.Header.filename == TRAILER', 'path.Base(entry.Header.filename) == TRAILER')],
 'an archived file within a directory that is named as the end of an archive is',
 'extraction stops there and succeeds without the rest of the archive',
 imp('bytes', 'os', 'path/filepath', 'testing', cpio=True) + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := dCpio([]dFile{{name: "d/TRAILER!!!", mode: 0100644, data: "x"}, {name: "z", mode: 0100644, data: "y"}})
	if err := cpio.Extract(bytes.NewReader(b), dir); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"d/TRAILER!!!", "z"} {
		if _, err := os.Lstat(filepath.Join(dir, n)); err != nil {
			t.Error(err)
		}
	}
}
''')

bug('c21-dash-name', 'C21',
 [('signatures.go', 'outpath == "-"', 'path.Base(outpath) == "-"')],
 'a destination in some directory whose file name is "-"',
 'the signed package goes to standard output instead of the destination',
 imp('bytes', 'os', 'path/filepath', 'testing') + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	in := filepath.Join(dir, "in.rpm")
	os.WriteFile(in, dRpm(dBasic(), nil, []byte("payload")), 0644)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	out := filepath.Join(dir, "-")
	stdout := os.Stdout
	os.Stdout, _ = os.Create(filepath.Join(dir, "stdout"))
	_, err = rpmutils.SignRpmFile(f, out, dKey(t, "a").PrivateKey, nil)
	os.Stdout = stdout
	if err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(out)
	if err != nil || !bytes.HasSuffix(b, []byte("payload")) {
		t.Error(len(b), err)
	}
}
''')

bug('c05-dir-index16', 'C05',
 [('header.go', 'dirs[dirIdxs[i]]', 'dirs[uint16(dirIdxs[i])]')],
 'a package with files in more than 65536 directories',
 'files are listed in the wrong directory',
 imp('bytes', 'fmt', 'testing') + '''
func TestDemo(t *testing.T) {
	var files []dFile
	for i := 0; i < 65540; i++ {
		files = append(files, dFile{name: fmt.Sprintf("/d%d/f", i), mode: 0100644})
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(dRpm(append(dBasic(), dFileTags(files)...), nil, nil)))
	if err != nil {
		t.Fatal(err)
	}
	list, err := h.GetFiles()
	if err != nil {
		t.Fatal(err)
	}
	for i, f := range list {
		if f.Name() != files[i].name {
			t.Fatal(i, f.Name())
		}
	}
}
''')

bug('c18-long-signature', 'C18',
 [('verify_digests.go', '	return parseSignature(blob, knownKeys)', '	if len(blob) > 1024 {\n		// no signature is as long as that\n		return nil, ErrTrailingGarbage\n	}\n	return parseSignature(blob, knownKeys)')],
 'a signature with a long note in it, or by a key of more than 8000 bits',
 'a package with a valid signature is refused',
 imp('bytes', 'crypto', 'testing', 'time', other=['github.com/ProtonMail/go-crypto/openpgp', 'github.com/ProtonMail/go-crypto/openpgp/packet']) + '''
func TestDemo(t *testing.T) {
	a := dKey(t, "a")
	rpm := dRpm(dBasic(), nil, []byte("payload"))
	h, err := rpmutils.ReadHeader(bytes.NewReader(rpm))
	if err != nil {
		t.Fatal(err)
	}
	rng := h.GetRange()
	sig := &packet.Signature{CreationTime: time.Unix(1500000000, 0), PubKeyAlgo: a.PrivateKey.PubKeyAlgo, Hash: crypto.SHA256, IssuerKeyId: &a.PrivateKey.KeyId,
		Notations: []*packet.Notation{{Name: "n@example.org", Value: make([]byte, 2000)}}}
	d := crypto.SHA256.New()
	d.Write(rpm[rng.Start:rng.End])
	if err := sig.Sign(d, a.PrivateKey, nil); err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := sig.Serialize(&b); err != nil {
		t.Fatal(err)
	}
	rpm = dRpm(dBasic(), []dTag{dBin(268, b.Bytes())}, []byte("payload"))
	if _, sigs, err := rpmutils.Verify(bytes.NewReader(rpm), openpgp.EntityList{a}); err != nil || len(sigs) != 1 {
		t.Error(len(sigs), err)
	}
}
''')
