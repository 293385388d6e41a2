package rpmutils_test

// Builds small packages and archives for the demonstrations.

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

type dTag struct {
	tag, typ, count int
	data            []byte
}

func dStr(tag int, s string) dTag { return dTag{tag, 6, 1, append([]byte(s), 0)} }
func dStrs(tag int, ss ...string) dTag {
	t := dTag{tag: tag, typ: 8, count: len(ss)}
	for _, s := range ss {
		t.data = append(append(t.data, s...), 0)
	}
	return t
}
func dBin(tag int, b []byte) dTag { return dTag{tag, 7, len(b), b} }
func dInts(tag, typ int, vs ...uint64) dTag {
	t := dTag{tag: tag, typ: typ, count: len(vs)}
	for _, v := range vs {
		switch typ {
		case 1, 2:
			t.data = append(t.data, byte(v))
		case 3:
			t.data = binary.BigEndian.AppendUint16(t.data, uint16(v))
		case 4:
			t.data = binary.BigEndian.AppendUint32(t.data, uint32(v))
		case 5:
			t.data = binary.BigEndian.AppendUint64(t.data, v)
		}
	}
	return t
}

var dAlign = map[int]int{3: 2, 4: 4, 5: 8}

// dHeader builds a header area with a region tag
func dHeader(tags []dTag, region int) []byte {
	tags = append([]dTag(nil), tags...)
	sort.SliceStable(tags, func(i, j int) bool { return tags[i].tag < tags[j].tag })
	var idx, data []byte
	put := func(dst []byte, v ...int) []byte {
		for _, x := range v {
			dst = binary.BigEndian.AppendUint32(dst, uint32(int32(x)))
		}
		return dst
	}
	for _, t := range tags {
		if a := dAlign[t.typ]; a > 0 {
			for len(data)%a != 0 {
				data = append(data, 0)
			}
		}
		idx = put(idx, t.tag, t.typ, len(data), t.count)
		data = append(data, t.data...)
	}
	n := len(tags) + 1
	ridx := put(nil, region, 7, len(data), 16)
	data = put(data, region, 7, -16*n, 16)
	out := put(nil, int(int64(0x8eade801)), 0, n, len(data))
	out = append(append(append(out, ridx...), idx...), data...)
	if region == 62 {
		for len(out)%8 != 0 {
			out = append(out, 0)
		}
	}
	return out
}

func dLead() []byte {
	b := make([]byte, 96)
	copy(b, "\xed\xab\xee\xdb\x03\x00\x00\x00\x00\x01demo")
	return b
}

func dBasic() []dTag {
	return []dTag{dStr(1000, "demo"), dStr(1001, "1.0"), dStr(1002, "1"), dStr(1022, "noarch"), dStr(1124, "cpio")}
}

type dFile struct {
	name      string
	mode      int
	data      string
	dev, ino  int
	nlink     int
	mtime     int
	sizeField int // size recorded in the header, if it differs
}

func dFileTags(files []dFile) []dTag {
	var dirs, bases, users, groups, digests, links []string
	var didx, sizes, flags, mtimes, modes, devs, inos []uint64
	for _, f := range files {
		d, b := filepath.Split(f.name)
		dirs, bases = append(dirs, d), append(bases, b)
		didx = append(didx, uint64(len(dirs)-1))
		size := len(f.data)
		if f.sizeField != 0 {
			size = f.sizeField
		}
		sizes = append(sizes, uint64(size))
		users, groups = append(users, "root"), append(groups, "root")
		flags = append(flags, 0)
		mtimes = append(mtimes, uint64(f.mtime))
		digests = append(digests, "")
		modes = append(modes, uint64(f.mode))
		link := ""
		if f.mode&0170000 == 0120000 {
			link = f.data
		}
		links = append(links, link)
		devs, inos = append(devs, uint64(f.dev)), append(inos, uint64(f.ino))
	}
	return []dTag{
		dStrs(1118, dirs...), dInts(1116, 4, didx...), dStrs(1117, bases...), dInts(1028, 4, sizes...),
		dStrs(1039, users...), dStrs(1040, groups...), dInts(1037, 4, flags...), dInts(1034, 4, mtimes...),
		dStrs(1035, digests...), dInts(1030, 3, modes...), dStrs(1036, links...), dInts(1095, 4, devs...), dInts(1096, 4, inos...),
	}
}

func dPad(b []byte) []byte {
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

func dCpioEntry(b []byte, name string, mode, nlink, ino int, data string) []byte {
	b = append(b, fmt.Sprintf("070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x", ino, mode, 0, 0, nlink, 0, len(data), 0, 0, 0, 0, len(name)+1, 0)...)
	b = dPad(append(append(b, name...), 0))
	return dPad(append(b, data...))
}

func dCpio(files []dFile) []byte {
	var b []byte
	for _, f := range files {
		n := f.nlink
		if n == 0 {
			n = 1
		}
		b = dCpioEntry(b, f.name, f.mode, n, f.ino, f.data)
	}
	return dCpioEntry(b, "TRAILER!!!", 0, 1, 0, "")
}

func dStripped(b []byte, index int, data string) []byte {
	return dPad(append(append(b, fmt.Sprintf("07070X%08x", index)...), data...))
}

func dGzip(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// dRpm builds a package with right digests. Tags in sig replace them.
func dRpm(gen, sig []dTag, payload []byte) []byte {
	gh := gen
	has := func(tags []dTag, tag int) bool {
		for _, t := range tags {
			if t.tag == tag {
				return true
			}
		}
		return false
	}
	if !has(gen, 5092) {
		sum := sha256.Sum256(payload)
		gh = append(append([]dTag(nil), gen...), dStrs(5092, hex.EncodeToString(sum[:])), dInts(5093, 4, 8))
	}
	g := dHeader(gh, 63)
	var sh []dTag
	if !has(sig, 273) {
		sum := sha256.Sum256(g)
		sh = append(sh, dStr(273, hex.EncodeToString(sum[:])))
	}
	if !has(sig, 1004) {
		sum := md5.Sum(append(append([]byte(nil), g...), payload...))
		sh = append(sh, dBin(1004, sum[:]))
	}
	for _, t := range sig {
		if t.data != nil {
			sh = append(sh, t)
		}
	}
	out := append(dLead(), dHeader(sh, 62)...)
	return append(append(out, g...), payload...)
}

func dKey(t *testing.T, name string) *openpgp.Entity {
	e, err := openpgp.NewEntity(name, "", name+"@example.com", &packet.Config{RSABits: 2048})
	if err != nil {
		t.Fatal(err)
	}
	return e
}

// dSign signs a package and puts the new signature header in place
func dSign(t *testing.T, rpm []byte, key *packet.PrivateKey, opts *rpmutils.SignatureOptions) []byte {
	h, err := rpmutils.SignRpmStream(bytes.NewReader(rpm), key, opts)
	if err != nil {
		t.Fatal("sign:", err)
	}
	blob, err := h.DumpSignatureHeader(false)
	if err != nil {
		t.Fatal("dump:", err)
	}
	return append(blob, rpm[h.OriginalSignatureHeaderSize():]...)
}

func dFileRpm(files []dFile) []byte {
	return dRpm(append(append(dBasic(), dFileTags(files)...), dStr(1125, "gzip")), nil, dGzip(dCpio(files)))
}

// within fails the test if f panics or takes too long
func within(t *testing.T, d time.Duration, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			t.Fatal("panic:", p)
		}
	case <-time.After(d):
		t.Fatal("takes too long")
	}
}

var (
	_ = os.Stdout
	_ = io.EOF
	_ = dStripped
	_ = dSign
	_ = dKey
	_ = dFileRpm
	_ = within
	_ = dInts
)
