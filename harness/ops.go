package main

// Operations of the library reduced to a comparable outcome.

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// outcome of an operation: whether it succeeded and what it delivered.
type outcome struct {
	ok   bool
	text string // comparable only between successful runs, unless partial is set
}

func failed(err error) outcome { return outcome{false, fmt.Sprint(err)} }

func sum(b []byte) string { return fmt.Sprintf("%d:%x", len(b), sha256.Sum256(b)) }

// headerText renders everything a header answers for the given tags.
func headerText(hdr *rpmutils.RpmHeader, tags []int) string {
	var b strings.Builder
	for _, tag := range tags {
		v, err := hdr.Get(tag)
		fmt.Fprintf(&b, "%d=%v/%v/%v;", tag, hdr.HasTag(tag), v, err != nil)
	}
	nv, err := hdr.GetNEVRA()
	fmt.Fprintf(&b, "nevra %v %v;", nv, err != nil)
	files, err := hdr.GetFiles()
	fmt.Fprintf(&b, "files %v;", err != nil)
	for _, f := range files {
		b.WriteString(fileText(f))
	}
	is, err := hdr.InstalledSize()
	fmt.Fprintf(&b, "isize %v %v;", is, err != nil)
	ps, err := hdr.PayloadSize()
	fmt.Fprintf(&b, "psize %v %v;", ps, err != nil)
	fmt.Fprintf(&b, "range %v %v %v;", hdr.GetRange(), hdr.OriginalSignatureHeaderSize(), hdr.IsSource())
	return b.String()
}

func fileText(f rpmutils.FileInfo) string {
	return fmt.Sprintf("<%q %d %q %q %d %d %q %o %q %d %d>", f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags(), f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode())
}

func sigsText(sigs []*rpmutils.Signature) string {
	var b strings.Builder
	for _, s := range sigs {
		signer := "none"
		if s.Signer != nil {
			signer = s.Signer.PrimaryKey.KeyIdString()
		}
		fmt.Fprintf(&b, "[%v %v %d %v %x %x %q]", signer, s.Hash, s.CreationTime.Unix(), s.HeaderOnly, s.KeyId, s.KeyFingerprint, s.PrimaryName)
	}
	return b.String()
}

func opReadHeader(rd io.Reader, tags []int) outcome {
	hdr, err := rpmutils.ReadHeader(rd)
	if err != nil {
		return failed(err)
	}
	return outcome{true, headerText(hdr, tags)}
}

func opVerify(rd io.Reader, el openpgp.EntityList, tags []int) outcome {
	hdr, sigs, err := rpmutils.Verify(rd, el)
	if err != nil {
		return failed(err)
	}
	return outcome{true, sigsText(sigs) + headerText(hdr, tags)}
}

// opSign signs with a deterministic key and fixed time.
func opSign(rd io.Reader, name string) outcome {
	hdr, err := rpmutils.SignRpmStream(rd, key(name).Key, &rpmutils.SignatureOptions{Hash: crypto.SHA256, CreationTime: time.Unix(1600000000, 0)})
	if err != nil {
		return failed(err)
	}
	var b strings.Builder
	for _, same := range []bool{false, true} {
		blob, err := hdr.DumpSignatureHeader(same)
		fmt.Fprintf(&b, "%s %v;", sum(blob), err)
	}
	return outcome{true, b.String()}
}

// opSignVerify signs with any options and verifies the result. Times and
// signatures are left out of the outcome unless the options fix them.
func opSignVerify(rd io.Reader, data []byte, name string, opts *rpmutils.SignatureOptions) outcome {
	from := time.Now().Add(-time.Second).Truncate(time.Second)
	hdr, err := rpmutils.SignRpmStream(rd, key(name).Key, opts)
	to := time.Now()
	if err != nil {
		return failed(err)
	}
	blob, err := hdr.DumpSignatureHeader(false)
	if err != nil {
		return failed(err)
	}
	_, sigs, err := rpmutils.Verify(bytes.NewReader(splice(data, hdr, blob)), ring(name))
	if err != nil {
		return failed(err)
	}
	text := "signed"
	for _, s := range sigs {
		text += fmt.Sprintf(" %v %v %x", s.HeaderOnly, s.Hash, s.KeyId)
		switch {
		case opts != nil && opts.CreationTime.Unix() > 0:
			text += fmt.Sprint(" ", s.CreationTime.Unix())
		case s.CreationTime.Before(from) || s.CreationTime.After(to):
			text += " not made when it was signed"
		}
	}
	return outcome{true, text}
}

// cpioHdrText renders every field of an entry header.
func cpioHdrText(h *cpio.Cpio_newc_header) string {
	return fmt.Sprintf("%s %q i%d s%d: %v %v [%x %x %x %x %x %x %x %x %x %x %x %x %x]", h.Magic(), h.Filename(), h.Index(), h.Filesize64(), h.IsStripped(), h.Filesize(),
		h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), h.Devmajor(), h.Devminor(), h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check())
}

// drainCpio iterates an archive; plan says how much of each file to read (-1 all).
func drainCpio(cr *cpio.Reader, bufSize int, plan func(i int) int) (string, error) {
	var b strings.Builder
	buf := make([]byte, bufSize)
	for i := 0; ; i++ {
		h, err := cr.Next()
		if err == io.EOF {
			return b.String(), nil
		} else if err != nil {
			return b.String(), err
		}
		b.WriteString(cpioHdrText(h))
		want := plan(i)
		hash := sha256.New()
		var k int
		for want < 0 || k < want {
			d := buf
			if want >= 0 {
				d = buf[:min(len(buf), want-k)]
			}
			c, err := cr.Read(d)
			hash.Write(d[:c])
			k += c
			if err == io.EOF {
				break
			} else if err != nil {
				return b.String(), err
			}
		}
		fmt.Fprintf(&b, "{%d:%x}", k, hash.Sum(nil))
	}
}

func readAllPlan(int) int { return -1 }

func opCpio(rd io.Reader, sizes []int64, bufSize int, plan func(int) int) outcome {
	s, err := drainCpio(cpio.NewReaderWithSizes(rd, sizes), bufSize, plan)
	if err != nil {
		return failed(err)
	}
	return outcome{true, s}
}

func opPayloadReader(rd io.Reader, bufSize int, plan func(int) int) outcome {
	rpm, err := rpmutils.ReadRpm(rd)
	if err != nil {
		return failed(err)
	}
	cr, err := rpm.PayloadReader()
	if err != nil {
		return failed(err)
	}
	s, err := drainCpio(cr, bufSize, plan)
	if err != nil {
		return failed(err)
	}
	return outcome{true, s}
}

type gotFile struct {
	info    rpmutils.FileInfo
	link    bool
	content []byte
	n       int64
}

// drainExtended iterates a payload; release makes sure the decompressor is let go.
func drainExtended(pr rpmutils.PayloadReader, bufSize int, plan func(int) int) ([]gotFile, error) {
	var out []gotFile
	buf := make([]byte, bufSize)
	for i := 0; ; i++ {
		f, err := pr.Next()
		if err == io.EOF {
			return out, nil
		} else if err != nil {
			return out, err
		}
		g := gotFile{info: f, link: pr.IsLink()}
		want := plan(i)
		for want < 0 || int(g.n) < want {
			d := buf
			if want >= 0 {
				d = buf[:min(len(buf), want-int(g.n))]
			}
			c, err := pr.Read(d)
			g.content = append(g.content, d[:c]...)
			g.n += int64(c)
			if err == io.EOF {
				break
			} else if err != nil {
				return out, err
			}
		}
		out = append(out, g)
	}
}

func opExtended(rd io.Reader, bufSize int, plan func(int) int) outcome {
	rpm, err := rpmutils.ReadRpm(rd)
	if err != nil {
		return failed(err)
	}
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		return failed(err)
	}
	files, err := drainExtended(pr, bufSize, plan)
	if err != nil {
		return failed(err)
	}
	var b strings.Builder
	for _, g := range files {
		fmt.Fprintf(&b, "%s %v %s;", fileText(g.info), g.link, sum(g.content))
	}
	return outcome{true, b.String()}
}

func opExtract(rd io.Reader, dest string) outcome {
	if err := cpio.Extract(rd, dest); err != nil {
		return failed(err)
	}
	return outcome{true, treeText(dest)}
}

func opExpand(rd io.Reader, dest string) outcome {
	rpm, err := rpmutils.ReadRpm(rd)
	if err != nil {
		return failed(err)
	}
	if err := rpm.ExpandPayload(dest); err != nil {
		return failed(err)
	}
	return outcome{true, treeText(dest)}
}

// node describes one file system object.
type node struct {
	Kind  string // dir, reg, link, fifo, other
	Perm  os.FileMode
	Data  string // content or link target
	Dev   uint64
	Ino   uint64
	Nlink uint64
	Mtime time.Time
	Ctime int64
}

// snapshot describes everything below root (root itself as ".").
func snapshot(root string) (map[string]node, error) {
	out := map[string]node{}
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil && !errors.Is(err, os.ErrPermission) {
			return err
		}
		rel, err := filepath.Rel(root, p)
		if err != nil {
			return err
		}
		st := info.Sys().(*syscall.Stat_t)
		n := node{Perm: info.Mode() & (os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky), Dev: st.Dev, Ino: st.Ino, Nlink: uint64(st.Nlink), Mtime: info.ModTime(), Ctime: st.Ctim.Nano()}
		switch {
		case info.IsDir():
			n.Kind = "dir"
		case info.Mode().IsRegular():
			n.Kind = "reg"
			b, err := os.ReadFile(p)
			if err != nil {
				n.Data = "unreadable"
			} else {
				n.Data = string(b)
			}
		case info.Mode()&os.ModeSymlink != 0:
			n.Kind = "link"
			n.Data, err = os.Readlink(p)
			if err != nil {
				return err
			}
		case info.Mode()&os.ModeNamedPipe != 0:
			n.Kind = "fifo"
		default:
			n.Kind = "other"
		}
		out[rel] = n
		return nil
	})
	return out, err
}

// treeText is a comparable rendering of a tree: names, kinds, permissions,
// contents and which files are the same inode.
func treeText(root string) string {
	snap, err := snapshot(root)
	if errors.Is(err, os.ErrNotExist) {
		return "missing"
	}
	check(err)
	var names []string
	for k := range snap {
		names = append(names, k)
	}
	sort.Strings(names)
	first := map[uint64]string{}
	var b strings.Builder
	for _, k := range names {
		n := snap[k]
		if _, ok := first[n.Ino]; !ok {
			first[n.Ino] = k
		}
		fmt.Fprintf(&b, "%q %s %v %s %q\n", k, n.Kind, n.Perm, sum([]byte(n.Data)), first[n.Ino])
	}
	return b.String()
}

var _ = bytes.NewReader
