From 75c3c0cc9530cc0856d67027b8a81a097a342561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 01/37] fix: reject header tags whose data lies outside the
 header

A tag entry with a negative or too large offset or count made ReadHeader
panic with a slice bounds error instead of returning an error.
---
 header.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 5894a58..432a26f 100644
--- a/header.go
+++ b/header.go
@@ -116,10 +116,17 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		if err := binary.Read(buf, binary.BigEndian, &tag); err != nil {
 			return nil, err
 		}
+		if tag.Offset < 0 || int64(tag.Offset) > int64(len(data)) || tag.Count < 0 {
+			return nil, fmt.Errorf("tag %d has an invalid offset or count", tag.Tag)
+		}
 		typeSize, ok := typeSizes[tag.DataType]
 		var end int
 		if ok {
-			end = int(tag.Offset) + typeSize*int(tag.Count)
+			length := int64(typeSize) * int64(tag.Count)
+			if length > int64(len(data))-int64(tag.Offset) {
+				return nil, fmt.Errorf("tag %d is truncated", tag.Tag)
+			}
+			end = int(tag.Offset) + int(length)
 		} else {
 			// String types are null-terminated
 			end = int(tag.Offset)
-- 
2.43.0


From 137d0ba9bb27e652dc0e8f3342ebaad249e3e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 02/37] fix: do not panic on string tags that hold no value

A NAME, VERSION, RELEASE, ARCH or header digest tag with a count of zero
made GetNEVRA or ReadHeader index an empty slice.
---
 header.go     | 3 +++
 signatures.go | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 432a26f..2e6e5e9 100644
--- a/header.go
+++ b/header.go
@@ -378,6 +378,9 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(name) == 0 || len(version) == 0 || len(release) == 0 || len(arch) == 0 {
+		return nil, errors.New("name, version, release or arch has no value")
+	}
 	return &NEVRA{
 		Name:    name[0],
 		Epoch:   strconv.FormatUint(epoch[0], 10),
diff --git a/signatures.go b/signatures.go
index 4678155..58858cc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -90,7 +90,7 @@ func insertSignatures(sigHeader *rpmHeader, sigPgp, sigRsa []byte) {
 
 func getSha1(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA1)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
@@ -98,7 +98,7 @@ func getSha1(sigHeader *rpmHeader) string {
 
 func getSha256(sigHeader *rpmHeader) string {
 	vals, err := sigHeader.GetStrings(SIG_SHA256)
-	if err != nil {
+	if err != nil || len(vals) == 0 {
 		return ""
 	}
 	return vals[0]
-- 
2.43.0


From 25261b85d0a747a677515c658ed8d4f9961053bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 03/37] fix: return an error when file attribute arrays are
 inconsistent

GetFiles and the OLDFILENAMES emulation panicked when DIRINDEXES pointed
past DIRNAMES or an attribute array was shorter than the file list.
---
 header.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/header.go b/header.go
index 2e6e5e9..9115e8f 100644
--- a/header.go
+++ b/header.go
@@ -201,8 +201,14 @@ func (hdr *rpmHeader) GetStrings(tag int) ([]string, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(dirIdxs) < len(baseNames) {
+			return nil, errors.New("not enough directory indexes for the listed files")
+		}
 		paths := make([]string, 0, len(baseNames))
 		for i, base := range baseNames {
+			if uint64(dirIdxs[i]) >= uint64(len(dirs)) {
+				return nil, fmt.Errorf("file %d refers to invalid directory index %d", i, dirIdxs[i])
+			}
 			paths = append(paths, path.Join(dirs[dirIdxs[i]], base))
 		}
 		return paths, nil
@@ -444,6 +450,15 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 		inodes = make([]uint32, len(paths))
 	}
 
+	for _, n := range []int{
+		len(fileSizes), len(fileUserName), len(fileGroupName), len(fileFlags), len(fileMtimes),
+		len(fileDigests), len(fileModes), len(linkTos), len(devices), len(inodes),
+	} {
+		if n < len(paths) {
+			return nil, errors.New("not enough file attributes for the listed files")
+		}
+	}
+
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
 		files[i] = &fileInfo{
-- 
2.43.0


From 07256d5fc1aae783c48c33c7963d2dc159e0b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 04/37] fix: allocate header memory only for bytes that were
 actually read

A 112 byte file declaring a huge entry count or data size made ReadHeader
allocate gigabytes before noticing that the input is truncated.
---
 header.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/header.go b/header.go
index 9115e8f..65499fe 100644
--- a/header.go
+++ b/header.go
@@ -67,9 +67,14 @@ var typeSizes = map[int32]int{
 }
 
 func readExact(f io.Reader, n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(f, buf)
-	return buf, err
+	// n may come from untrusted input, so don't allocate more than what can
+	// actually be read
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, f, int64(n))
+	if err == io.EOF && buf.Len() > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
 }
 
 func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, sigBlock bool) (*rpmHeader, error) {
-- 
2.43.0


From 2d77ba841ca34f3926afba83aa8b5a5278639bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 05/37] fix: reject negative numbers and missing names in cpio
 headers

Header fields written with a sign were accepted, so a negative name size,
file size or index made the reader panic, as did a name size of zero.
---
 cpio/cpio.go   | 3 +++
 cpio/header.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 8e4bba1..b649dcd 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -82,6 +82,9 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	}
 
 	// Read filename
+	if hdr.namesize < 1 {
+		return nil, errors.New("cpio entry has no filename")
+	}
 	buf := make([]byte, hdr.namesize)
 	if _, err = io.ReadFull(cs.stream, buf); err != nil {
 		return nil, err
diff --git a/cpio/header.go b/cpio/header.go
index 89af114..fd78d0e 100644
--- a/cpio/header.go
+++ b/cpio/header.go
@@ -63,7 +63,8 @@ func (br *binaryReader) Read16(buf *int) error {
 	if _, err := io.ReadFull(br.r, bb); err != nil {
 		return err
 	}
-	i, err := strconv.ParseInt(string(bb), 16, 0)
+	// fields are unsigned, but must fit into a int
+	i, err := strconv.ParseUint(string(bb), 16, strconv.IntSize-1)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d2c1fcaee3487a79db65c49a130d017f184932eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 06/37] fix: skip cpio data without allocating what the archive
 declares

Skipping a file allocated a buffer of the file's size, and reading a name
one of the declared name size: a short archive could make the reader
allocate gigabytes or, with sizes supplied for stripped entries, panic.
---
 cpio/cpio.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index b649dcd..87345f4 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -17,6 +17,7 @@
 package cpio
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -85,12 +86,12 @@ func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
 	if hdr.namesize < 1 {
 		return nil, errors.New("cpio entry has no filename")
 	}
-	buf := make([]byte, hdr.namesize)
-	if _, err = io.ReadFull(cs.stream, buf); err != nil {
+	var name bytes.Buffer
+	if _, err = io.CopyN(&name, cs.stream, int64(hdr.namesize)); err != nil {
 		return nil, err
 	}
 
-	filename := string(buf[:len(buf)-1])
+	filename := string(name.Bytes()[:name.Len()-1])
 
 	offset := pad(newcHeaderLength+int(hdr.namesize)) - newcHeaderLength - int(hdr.namesize)
 
@@ -149,12 +150,17 @@ func (cr *countingReader) Seek(offset int64, whence int) (int64, error) {
 	if offset == 0 {
 		return cr.curPos, nil
 	}
-	b := make([]byte, offset)
-	n, err := io.ReadFull(cr, b)
+	if offset < 0 {
+		return 0, errors.New("seeking backwards is not supported")
+	}
+	n, err := io.CopyN(io.Discard, cr, offset)
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
-	return int64(n), nil
+	return n, nil
 }
 
 func pad(num int) int {
-- 
2.43.0


From 1fc4ebe91adb9be456eb44c28d65f2b8491a450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 07/37] fix: read symlink targets completely when extracting

A single Read may return only part of the target, for example at the end
of a decompressor's buffer, and extraction then failed or truncated the
link. The declared size was also allocated up front.
---
 cpio/extract.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index ec4931c..fffed64 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -92,10 +92,13 @@ func Extract(rs io.Reader, dest string) error {
 				return err
 			}
 		case S_ISLNK:
-			buf := make([]byte, entry.Header.filesize)
-			if _, err := entry.payload.Read(buf); err != nil {
+			buf, err := io.ReadAll(entry.payload)
+			if err != nil {
 				return err
 			}
+			if len(buf) != entry.Header.filesize {
+				return fmt.Errorf("short read")
+			}
 			if err := os.Symlink(string(buf), target); err != nil {
 				return err
 			}
-- 
2.43.0


From a0c4ea35b9fc3725b05faec47341bd90b22e5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:38 +0000
Subject: [PATCH 08/37] fix: report truncated cpio archives as unexpected EOF

A stream that ended inside a file's contents, or anywhere at which no byte
of the next header could be read, was reported with the same io.EOF that
means the file or the archive is complete. In particular a truncated
uncompressed payload, or a truncated zstd one read with cgo, looked like a
complete package with fewer or shorter files.
---
 cpio/cpio.go   | 9 +++++++++
 cpio/reader.go | 5 +++++
 cpio/stream.go | 3 +++
 3 files changed, 17 insertions(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 87345f4..4aeb466 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -67,6 +67,15 @@ func (cs *CpioStream) SetFileSizes(sizes []int64) {
 //
 // The final file in the archive can be detected by checking for a Filename of TRAILER.
 func (cs *CpioStream) ReadNextEntry() (*CpioEntry, error) {
+	entry, err := cs.readNextEntry()
+	if err == io.EOF {
+		// an archive ends with its trailer, not with the end of the stream
+		err = io.ErrUnexpectedEOF
+	}
+	return entry, err
+}
+
+func (cs *CpioStream) readNextEntry() (*CpioEntry, error) {
 	if cs.nextPos != cs.stream.curPos {
 		_, err := cs.stream.Seek(cs.nextPos-cs.stream.curPos, 1)
 		if err != nil {
diff --git a/cpio/reader.go b/cpio/reader.go
index d78879e..cb08e69 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -22,6 +22,7 @@ import "io"
 type Reader struct {
 	stream *CpioStream
 	cur    *CpioEntry
+	done   bool
 }
 
 // NewReader starts reading a cpio archive stream
@@ -44,10 +45,14 @@ func NewReaderWithSizes(stream io.Reader, sizes []int64) *Reader {
 //
 // Returns io.EOF upon encountering the archive trailer.
 func (r *Reader) Next() (*Cpio_newc_header, error) {
+	if r.done {
+		return nil, io.EOF
+	}
 	ent, err := r.stream.ReadNextEntry()
 	if err != nil {
 		return nil, err
 	} else if ent.Header.filename == TRAILER {
+		r.done = true
 		return nil, io.EOF
 	}
 	r.cur = ent
diff --git a/cpio/stream.go b/cpio/stream.go
index 44a8619..a5547a2 100644
--- a/cpio/stream.go
+++ b/cpio/stream.go
@@ -59,5 +59,8 @@ func (fs *file_stream) Read(p []byte) (n int, err error) {
 	}
 	n, err = fs.stream.Read(p)
 	fs.curr_pos += int64(n)
+	if err == io.EOF && fs.curr_pos < fs.size {
+		err = io.ErrUnexpectedEOF
+	}
 	return
 }
-- 
2.43.0


From a5e2daa50990c29a8d87ec4e20550d3f61719078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 09/37] fix: Filesize64 returns the supplied size of stripped
 entries

It is documented to, but always returned 0 for them.
---
 cpio/cpio.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpio/cpio.go b/cpio/cpio.go
index 4aeb466..e75f36a 100644
--- a/cpio/cpio.go
+++ b/cpio/cpio.go
@@ -143,6 +143,7 @@ func (cs *CpioStream) readStrippedEntry(hdr *Cpio_newc_header) (*CpioEntry, erro
 	if err != nil {
 		return nil, err
 	}
+	hdr.size64 = size
 	return &CpioEntry{Header: hdr, payload: payload}, nil
 }
 
-- 
2.43.0


From 8ea848525d7836b106bfead1c8e7303b5e96ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 10/37] fix: do not panic when no payload file has been reached
 yet

Reading before the first call to Next, or asking IsLink on a package
without files, dereferenced a nil entry or indexed an empty slice.
---
 cpio/reader.go | 3 +++
 payload.go     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpio/reader.go b/cpio/reader.go
index cb08e69..141d47c 100644
--- a/cpio/reader.go
+++ b/cpio/reader.go
@@ -63,5 +63,8 @@ func (r *Reader) Next() (*Cpio_newc_header, error) {
 //
 // Returns io.EOF when the current file has been read in its entirety.
 func (r *Reader) Read(p []byte) (n int, err error) {
+	if r.cur == nil {
+		return 0, io.EOF
+	}
 	return r.cur.payload.Read(p)
 }
diff --git a/payload.go b/payload.go
index ca489b2..ffa34f4 100644
--- a/payload.go
+++ b/payload.go
@@ -120,5 +120,5 @@ func (pr *payloadReader) Read(d []byte) (int, error) {
 // subsequent file with the same FileInfo.Inode and for which IsLink() returns
 // false will have the contents.
 func (pr *payloadReader) IsLink() bool {
-	return pr.isLink[pr.index]
+	return pr.index < len(pr.isLink) && pr.isLink[pr.index]
 }
-- 
2.43.0


From 4f0ea8fc01330bcd6dae431c1c3ae8e003f2ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 11/37] fix: extract hardlinked empty files and tell link
 groups apart

Hardlinked files without contents were silently not extracted at all, and
groups on different devices sharing an inode number were mixed up.
---
 cpio/extract.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index fffed64..cc4dc62 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -44,7 +44,7 @@ const (
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
 	dest = filepath.Clean(filepath.FromSlash(dest))
-	linkMap := make(map[int][]string)
+	linkMap := make(map[linkKey][]string)
 
 	stream := NewCpioStream(rs)
 
@@ -105,12 +105,8 @@ func Extract(rs io.Reader, dest string) error {
 		case S_ISREG:
 			// save hardlinks until after the taget is written
 			if entry.Header.nlink > 1 && entry.Header.filesize == 0 {
-				l, ok := linkMap[entry.Header.ino]
-				if !ok {
-					l = make([]string, 0)
-				}
-				l = append(l, target)
-				linkMap[entry.Header.ino] = l
+				key := newLinkKey(entry.Header)
+				linkMap[key] = append(linkMap[key], target)
 				continue
 			}
 
@@ -132,10 +128,12 @@ func Extract(rs io.Reader, dest string) error {
 
 			// Create hardlinks after the file content is written.
 			if entry.Header.nlink > 1 && entry.Header.filesize > 0 {
-				l, ok := linkMap[entry.Header.ino]
+				key := newLinkKey(entry.Header)
+				l, ok := linkMap[key]
 				if !ok {
 					return fmt.Errorf("hardlinks missing")
 				}
+				delete(linkMap, key)
 
 				for _, t := range l {
 					if err := os.Link(target, t); err != nil {
@@ -149,5 +147,31 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
+	// Whatever is left are hardlinks to empty files, no member of which came
+	// with contents.
+	for _, l := range linkMap {
+		f, err := os.Create(l[0])
+		if err != nil {
+			return err
+		}
+		if err := f.Close(); err != nil {
+			return err
+		}
+		for _, t := range l[1:] {
+			if err := os.Link(l[0], t); err != nil {
+				return err
+			}
+		}
+	}
+
 	return nil
 }
+
+// linkKey identifies the file that a group of hardlinks refers to
+type linkKey struct {
+	devmajor, devminor, ino int
+}
+
+func newLinkKey(hdr *Cpio_newc_header) linkKey {
+	return linkKey{devmajor: hdr.devmajor, devminor: hdr.devminor, ino: hdr.ino}
+}
-- 
2.43.0


From 55e97a76a0aa43a08d0e679be1c696f308c747bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 12/37] fix: close the output file when extraction of its
 contents fails

---
 cpio/extract.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpio/extract.go b/cpio/extract.go
index cc4dc62..7b8e0fa 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -117,9 +117,11 @@ func Extract(rs io.Reader, dest string) error {
 			}
 			written, err := io.Copy(f, entry.payload)
 			if err != nil {
+				f.Close()
 				return err
 			}
 			if written != int64(entry.Header.filesize) {
+				f.Close()
 				return fmt.Errorf("short write")
 			}
 			if err := f.Close(); err != nil {
-- 
2.43.0


From 97d8bb273d8c87925dc499da67eaeb2e3d192e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 13/37] fix: extract to the current or the root directory

With a destination of ".", "" or "/" every entry failed the check that
its path lies below the destination.
---
 cpio/extract.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 7b8e0fa..f461bcf 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -43,7 +43,14 @@ const (
 
 // Extract the contents of a cpio stream from r to the destination directory dest
 func Extract(rs io.Reader, dest string) error {
-	dest = filepath.Clean(filepath.FromSlash(dest))
+	dest, err := filepath.Abs(filepath.FromSlash(dest))
+	if err != nil {
+		return err
+	}
+	destPrefix := dest
+	if !strings.HasSuffix(destPrefix, string(filepath.Separator)) {
+		destPrefix += string(filepath.Separator)
+	}
 	linkMap := make(map[linkKey][]string)
 
 	stream := NewCpioStream(rs)
@@ -64,7 +71,7 @@ func Extract(rs io.Reader, dest string) error {
 			target = target[3:]
 		}
 		target = filepath.Join(dest, filepath.FromSlash(target))
-		if !strings.HasPrefix(target, dest+string(filepath.Separator)) && dest != target {
+		if !strings.HasPrefix(target, destPrefix) && dest != target {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
-- 
2.43.0


From 958dc128cb9e2af644bb3d5a4f83e4f4444a7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 14/37] fix: do not follow symlinks out of the destination when
 extracting

An archive could place a symlink and then write through it, either with an
entry below it or with a regular file of the same name, and so create or
overwrite files anywhere. A non-directory entry for the destination itself
could replace the destination in the same way.
---
 cpio/extract.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index f461bcf..b3a0364 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -75,8 +75,15 @@ func Extract(rs io.Reader, dest string) error {
 			// this shouldn't happen due to the sanitization above but always check
 			return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
 		}
-		// Create the parent directory if it doesn't exist.
 		parent := filepath.Dir(target)
+		if target == dest {
+			if entry.Header.Mode()&^07777 != S_ISDIR {
+				return fmt.Errorf("invalid cpio path %q", entry.Header.filename)
+			}
+		} else if err := checkParent(dest, parent); err != nil {
+			return err
+		}
+		// Create the parent directory if it doesn't exist.
 		if err := os.MkdirAll(parent, 0755); err != nil {
 			return err
 		}
@@ -118,7 +125,7 @@ func Extract(rs io.Reader, dest string) error {
 			}
 
 			// FIXME: Set permissions on files when creating.
-			f, err := os.Create(target)
+			f, err := createFile(target)
 			if err != nil {
 				return err
 			}
@@ -159,7 +166,7 @@ func Extract(rs io.Reader, dest string) error {
 	// Whatever is left are hardlinks to empty files, no member of which came
 	// with contents.
 	for _, l := range linkMap {
-		f, err := os.Create(l[0])
+		f, err := createFile(l[0])
 		if err != nil {
 			return err
 		}
@@ -176,6 +183,50 @@ func Extract(rs io.Reader, dest string) error {
 	return nil
 }
 
+// checkParent ensures that symlinks already extracted below dest don't lead out
+// of it when following them to parent
+func checkParent(dest, parent string) error {
+	for parent != dest {
+		_, err := os.Lstat(parent)
+		if err == nil {
+			break
+		} else if !os.IsNotExist(err) {
+			return err
+		}
+		parent = filepath.Dir(parent)
+	}
+	if parent == dest {
+		return nil
+	}
+	realDest, err := filepath.EvalSymlinks(dest)
+	if err != nil {
+		return err
+	}
+	realParent, err := filepath.EvalSymlinks(parent)
+	if err != nil {
+		return err
+	}
+	rel, err := filepath.Rel(realDest, realParent)
+	if err != nil {
+		return err
+	}
+	if rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+		return fmt.Errorf("cpio path %q leads out of the destination through a symlink", parent)
+	}
+	return nil
+}
+
+// createFile creates or overwrites a regular file. Anything else at that path,
+// such as a symlink to some other file, is replaced.
+func createFile(target string) (*os.File, error) {
+	if info, err := os.Lstat(target); err == nil && !info.Mode().IsRegular() && !info.IsDir() {
+		if err := os.Remove(target); err != nil {
+			return nil, err
+		}
+	}
+	return os.Create(target)
+}
+
 // linkKey identifies the file that a group of hardlinks refers to
 type linkKey struct {
 	devmajor, devminor, ino int
-- 
2.43.0


From 031e01a6b85b69e8090a79fd3057ac5cbaa35f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 15/37] fix: apply the documented defaults to unset signature
 options

Passing options without a hash panicked, and without a creation time
produced signatures dated year 1.
---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 58858cc..f7caedc 100644
--- a/signatures.go
+++ b/signatures.go
@@ -39,14 +39,14 @@ type SignatureOptions struct {
 }
 
 func (opts *SignatureOptions) hash() crypto.Hash {
-	if opts != nil {
+	if opts != nil && opts.Hash != 0 {
 		return opts.Hash
 	}
 	return crypto.SHA256
 }
 
 func (opts *SignatureOptions) creationTime() time.Time {
-	if opts != nil {
+	if opts != nil && !opts.CreationTime.IsZero() {
 		return opts.CreationTime
 	}
 	return time.Now()
-- 
2.43.0


From 515c99f1f54ae33a7d93c171b6d51eb4d13c04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 16/37] fix: detect hard links

os.FileInfo.Sys() holds a *syscall.Stat_t, never a *unix.Stat_t, so
HasLinks always returned false and signing in place changed every other
hard link of the package too.
---
 fileutil/fileutil_unix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fileutil/fileutil_unix.go b/fileutil/fileutil_unix.go
index e5a0f72..aa5a129 100644
--- a/fileutil/fileutil_unix.go
+++ b/fileutil/fileutil_unix.go
@@ -21,12 +21,14 @@ package fileutil
 
 import (
 	"os"
+	"syscall"
+
 	"golang.org/x/sys/unix"
 )
 
 // HasLinks returns true if the given file has Nlink > 1
 func HasLinks(info os.FileInfo) bool {
-	stat, ok := info.Sys().(*unix.Stat_t)
+	stat, ok := info.Sys().(*syscall.Stat_t)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From f4ebbdd7d125d1a01c8b2a47227061658af4ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 17/37] fix: keep the destination intact when writing a signed
 RPM fails

The deferred cleanup looked at a shadowed variable, so a partially written
temporary file was renamed over the destination, errors from closing and
renaming it were lost and the file was neither closed nor removed.
---
 signatures.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/signatures.go b/signatures.go
index f7caedc..5d6ab34 100644
--- a/signatures.go
+++ b/signatures.go
@@ -225,7 +225,7 @@ func RewriteWithSignatures(infile *os.File, outpath string, sigPgp, sigRsa []byt
 	return header, nil
 }
 
-func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
+func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error) {
 	delete(header.sigHeader.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
 	ininfo, err := infile.Stat()
 	if err != nil {
@@ -253,20 +253,23 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) error {
 		}
 		if outstream == nil {
 			// write-rename
-			tempfile, err := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
-			if err != nil {
-				return err
+			tempfile, createErr := os.CreateTemp(path.Dir(outpath), path.Base(outpath))
+			if createErr != nil {
+				return createErr
 			}
 			defer func() {
-				if err != nil {
-					os.Remove(tempfile.Name())
-				} else {
+				if err == nil {
 					_ = tempfile.Chmod(0644)
-					if err = tempfile.Close(); err != nil {
-						return
-					}
+				}
+				if closeErr := tempfile.Close(); err == nil {
+					err = closeErr
+				}
+				if err == nil {
 					err = os.Rename(tempfile.Name(), outpath)
 				}
+				if err != nil {
+					os.Remove(tempfile.Name())
+				}
 			}()
 			outstream = tempfile
 		}
-- 
2.43.0


From a8a2fd383babf8cf57cd737adeb01436964a4ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 18/37] fix: do not truncate the input when signing to a
 symlink to it

---
 signatures.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/signatures.go b/signatures.go
index 5d6ab34..c034677 100644
--- a/signatures.go
+++ b/signatures.go
@@ -23,6 +23,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 	"time"
 
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
@@ -236,6 +237,15 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 		outstream = os.Stdout
 	} else {
 		outinfo, err := os.Lstat(outpath)
+		if err == nil && outinfo.Mode()&os.ModeSymlink != 0 {
+			// don't truncate the input by writing to a symlink to it
+			if info, err := os.Stat(outpath); err == nil && os.SameFile(ininfo, info) {
+				if outpath, err = filepath.EvalSymlinks(outpath); err != nil {
+					return err
+				}
+				outinfo = info
+			}
+		}
 		if err == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
-- 
2.43.0


From 249b85201bfd36ae3c68348d71e2b513c7da8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 19/37] fix: do not overflow when computing the size of a
 header

---
 header.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/header.go b/header.go
index 65499fe..e5bec89 100644
--- a/header.go
+++ b/header.go
@@ -66,11 +66,11 @@ var typeSizes = map[int32]int{
 	RPM_BIN_TYPE:   1,
 }
 
-func readExact(f io.Reader, n int) ([]byte, error) {
+func readExact(f io.Reader, n int64) ([]byte, error) {
 	// n may come from untrusted input, so don't allocate more than what can
 	// actually be read
 	var buf bytes.Buffer
-	_, err := io.CopyN(&buf, f, int64(n))
+	_, err := io.CopyN(&buf, f, n)
 	if err == io.EOF && buf.Len() > 0 {
 		err = io.ErrUnexpectedEOF
 	}
@@ -90,17 +90,17 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("bad magic for header")
 	}
 	// read entries
-	entryTable, err := readExact(f, int(intro.Entries*16))
+	entryTable, err := readExact(f, int64(intro.Entries)*16)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header table: %s", err.Error())
 	}
 	// read data
-	size := intro.Size
+	size := int64(intro.Size)
 	if sigBlock {
 		// signature block is padded to 8 byte alignment
 		size = (size + 7) / 8 * 8
 	}
-	data, err := readExact(f, int(size))
+	data, err := readExact(f, size)
 	if err != nil {
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
-- 
2.43.0


From a787f0a74ccfc2b7c3588e1a7fc698d72df4a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 20/37] fix: return an error for sizes that do not fit an int64

---
 header.go   | 4 ++++
 rpmutils.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/header.go b/header.go
index e5bec89..78767b1 100644
--- a/header.go
+++ b/header.go
@@ -24,6 +24,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"path"
 	"strconv"
 	"strings"
@@ -466,6 +467,9 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 
 	files := make([]FileInfo, len(paths))
 	for i := 0; i < len(paths); i++ {
+		if fileSizes[i] > math.MaxInt64 {
+			return nil, fmt.Errorf("size of file %d is out of range", i)
+		}
 		files[i] = &fileInfo{
 			name:      paths[i],
 			size:      fileSizes[i],
diff --git a/rpmutils.go b/rpmutils.go
index cbe3100..90e8e94 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/sassoftware/go-rpmutils/cpio"
 )
@@ -303,6 +304,8 @@ func (hdr *RpmHeader) InstalledSize() (int64, error) {
 	u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)
 	if err != nil {
 		return -1, err
+	} else if u > math.MaxInt64 {
+		return -1, errors.New("installed size is out of range")
 	}
 	return int64(u), nil
 }
@@ -314,6 +317,8 @@ func (hdr *RpmHeader) PayloadSize() (int64, error) {
 		return -1, err
 	} else if len(u) != 1 {
 		return -1, errors.New("incorrect number of values")
+	} else if u[0] > math.MaxInt64 {
+		return -1, errors.New("payload size is out of range")
 	}
 	return int64(u[0]), err
 }
-- 
2.43.0


From 069dd5a78c03f3dbd3278d4d7f6c3bd4de413bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 21/37] fix: enforce header digests of any length

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 78767b1..a14a4f2 100644
--- a/header.go
+++ b/header.go
@@ -106,7 +106,7 @@ func readHeader(f io.Reader, hash string, hashType crypto.Hash, isSource bool, s
 		return nil, fmt.Errorf("error reading RPM header data: %s", err.Error())
 	}
 	// Check hash if it was specified
-	if len(hash) > 1 {
+	if hash != "" {
 		h := hashType.New()
 		h.Write(origBuf.Bytes())
 		calculated := hex.EncodeToString(h.Sum(nil))
-- 
2.43.0


From ecbd65b1a7136a4815d83b2ea06ee74292c1232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 22/37] fix: do not leak a decompressor when the file list is
 invalid

---
 rpmutils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpmutils.go b/rpmutils.go
index 90e8e94..5321186 100644
--- a/rpmutils.go
+++ b/rpmutils.go
@@ -81,11 +81,11 @@ func (rpm *Rpm) PayloadReader() (*cpio.Reader, error) {
 
 // PayloadReaderExtended accesses payload file contents sequentially
 func (rpm *Rpm) PayloadReaderExtended() (PayloadReader, error) {
-	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
+	files, err := rpm.Header.GetFiles()
 	if err != nil {
 		return nil, err
 	}
-	files, err := rpm.Header.GetFiles()
+	pld, err := uncompressRpmPayloadReader(rpm.f, rpm.Header)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b943efbe3b6adcb9912738c410578892b2145580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 23/37] fix: report the key ID and fingerprint of the key that
 signed

The primary key was reported when a subkey signed, and an issuer key ID
that does not belong to the key that verified the signature was reported
as is, although it need not be covered by the signature.
---
 verify_v3.go |  2 +-
 verify_v4.go | 15 ++++++---------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/verify_v3.go b/verify_v3.go
index 48bb572..9f48e29 100644
--- a/verify_v3.go
+++ b/verify_v3.go
@@ -28,7 +28,7 @@ func parseSignatureMaybeV3(genpkt packet.Packet, knownKeys openpgp.EntityList) (
 		if len(keys) == 0 || keys[0].PublicKey == nil {
 			return KeyNotFoundError{KeyID: pkt.IssuerKeyId}
 		}
-		setEntity(sig, keys[0].Entity)
+		setEntity(sig, keys[0].Entity, keys[0].PublicKey)
 		return keys[0].PublicKey.VerifySignatureV3(h, pkt)
 	}
 	return sig, nil
diff --git a/verify_v4.go b/verify_v4.go
index 38d02d6..4bcd3f2 100644
--- a/verify_v4.go
+++ b/verify_v4.go
@@ -37,7 +37,7 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 			return nil
 		}
 		if entity, key := findKey(pkt, knownKeys); key != nil {
-			setEntity(sig, entity)
+			setEntity(sig, entity, key)
 			return key.VerifySignature(h, pkt)
 		}
 		return KeyNotFoundError{
@@ -48,15 +48,12 @@ func parseSignatureV4(genpkt packet.Packet, knownKeys openpgp.EntityList) (*Sign
 	return sig, nil
 }
 
-// set identity attributes on signature
-func setEntity(sig *Signature, entity *openpgp.Entity) {
+// set identity attributes on signature. key is the one that made the signature,
+// which may be a subkey of the entity.
+func setEntity(sig *Signature, entity *openpgp.Entity, key *packet.PublicKey) {
 	sig.Signer = entity
-	if sig.KeyId == 0 {
-		sig.KeyId = entity.PrimaryKey.KeyId
-	}
-	if sig.KeyFingerprint == nil {
-		sig.KeyFingerprint = entity.PrimaryKey.Fingerprint
-	}
+	sig.KeyId = key.KeyId
+	sig.KeyFingerprint = key.Fingerprint
 	if identity := entity.PrimaryIdentity(); identity != nil {
 		sig.PrimaryName = identity.Name
 	}
-- 
2.43.0


From 21eaa12a29c2412da8b224631c9a9ecd454f5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 24/37] fix: compare versions that contain newlines

---
 vercmp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercmp.go b/vercmp.go
index e9cba8c..2ebb21f 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,9 +22,9 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`^([^a-zA-Z0-9~]*)(.*)$`)
-	R_NUM           = regexp.MustCompile(`^([\d]+)(.*)$`)
-	R_ALPHA         = regexp.MustCompile(`^([a-zA-Z]+)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
+	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
 
 // VersionSlice provides the Sort interface for sorting version strings.
-- 
2.43.0


From b1e26be5a128b11de07daf5d588fec65c6016a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 25/37] fix: compare versions that contain carets like rpm does

---
 vercmp.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vercmp.go b/vercmp.go
index 2ebb21f..df689c6 100644
--- a/vercmp.go
+++ b/vercmp.go
@@ -22,7 +22,7 @@ import (
 )
 
 var (
-	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~]*)(.*)$`)
+	R_NONALNUMTILDE = regexp.MustCompile(`(?s)^([^a-zA-Z0-9~^]*)(.*)$`)
 	R_NUM           = regexp.MustCompile(`(?s)^([\d]+)(.*)$`)
 	R_ALPHA         = regexp.MustCompile(`(?s)^([a-zA-Z]+)(.*)$`)
 )
@@ -80,6 +80,25 @@ func Vercmp(first, second string) int {
 			return 1
 		}
 
+		// Handle the caret separator, it sorts after the end of the string but
+		// before everything else.
+		if strings.HasPrefix(first, "^") || strings.HasPrefix(second, "^") {
+			if first == "" {
+				return -1
+			}
+			if second == "" {
+				return 1
+			}
+			if !strings.HasPrefix(first, "^") {
+				return 1
+			}
+			if !strings.HasPrefix(second, "^") {
+				return -1
+			}
+			first, second = first[1:], second[1:]
+			continue
+		}
+
 		// If we ran to the end of either, we are finished with the loop.
 		if first == "" || second == "" {
 			break
-- 
2.43.0


From b211c7a2172990d78e560834bf2773c0b73779cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 26/37] fix: close the decompressor when reading file contents
 fails

---
 payload.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/payload.go b/payload.go
index ffa34f4..5c8144c 100644
--- a/payload.go
+++ b/payload.go
@@ -113,7 +113,14 @@ func (pr *payloadReader) Next() (FileInfo, error) {
 
 // Read bytes from the file returned by the preceding call to Next()
 func (pr *payloadReader) Read(d []byte) (int, error) {
-	return pr.cr.Read(d)
+	n, err := pr.cr.Read(d)
+	if err != nil && err != io.EOF {
+		// close decompressor on failure, as in Next()
+		if c, ok := pr.stream.(io.Closer); ok {
+			c.Close()
+		}
+	}
+	return n, err
 }
 
 // IsLink returns true if the current file is a hard-link with no contents. A
-- 
2.43.0


From 3d8449b39603aaf604be1a28d079ff2074fb789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 27/37] fix: do not ignore file devices and inodes that cannot
 be read

---
 header.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/header.go b/header.go
index a14a4f2..a9ef07c 100644
--- a/header.go
+++ b/header.go
@@ -449,10 +449,16 @@ func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	}
 	devices, err := hdr.GetUint32s(FILEDEVICES)
 	if err != nil {
+		if !errors.As(err, &NoSuchTagError{}) {
+			return nil, err
+		}
 		devices = make([]uint32, len(paths))
 	}
 	inodes, err := hdr.GetUint32s(FILEINODES)
 	if err != nil {
+		if !errors.As(err, &NoSuchTagError{}) {
+			return nil, err
+		}
 		inodes = make([]uint32, len(paths))
 	}
 
-- 
2.43.0


From 2e813e2e10dbb67c482c3417680244de589851d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 28/37] fix: do not report an empty file list when directories
 are missing

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index a9ef07c..a16134b 100644
--- a/header.go
+++ b/header.go
@@ -409,7 +409,7 @@ func (hdr *rpmHeader) GetNEVRA() (*NEVRA, error) {
 func (hdr *rpmHeader) GetFiles() ([]FileInfo, error) {
 	paths, err := hdr.GetStrings(OLDFILENAMES)
 	if err != nil {
-		if !errors.As(err, &NoSuchTagError{}) {
+		if !errors.As(err, &NoSuchTagError{}) || hdr.HasTag(BASENAMES) {
 			return nil, err
 		}
 		// RPM has no files
-- 
2.43.0


From e439405140efff89150848e53f2fa1685c52d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 29/37] fix: retry reads that return no data in xz and lzma
 payloads

The xz and lzma readers fail when the underlying reader returns no bytes
without an error, which io.Reader allows.
---
 uncompress.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/uncompress.go b/uncompress.go
index 90b8622..b9a3a1a 100644
--- a/uncompress.go
+++ b/uncompress.go
@@ -75,9 +75,9 @@ func uncompressRpmPayloadReader(r io.Reader, hdr *RpmHeader) (io.Reader, error)
 	case "bzip2":
 		return bzip2.NewReader(r), nil
 	case "lzma":
-		return lzma.NewReader(r)
+		return lzma.NewReader(retryReader{r})
 	case "xz":
-		return xz.NewReader(r)
+		return xz.NewReader(retryReader{r})
 	case "uncompressed":
 		// prevent ExpandPayload from closing the underlying file
 		return noCloseWrapper{r}, nil
@@ -93,3 +93,19 @@ type noCloseWrapper struct {
 func (w noCloseWrapper) Read(d []byte) (int, error) {
 	return w.r.Read(d)
 }
+
+// retryReader tries again when a read returns no data and no error. The xz and
+// lzma readers take that for a failure.
+type retryReader struct {
+	r io.Reader
+}
+
+func (r retryReader) Read(d []byte) (int, error) {
+	for i := 0; i < 100; i++ {
+		n, err := r.r.Read(d)
+		if n != 0 || err != nil || len(d) == 0 {
+			return n, err
+		}
+	}
+	return 0, io.ErrNoProgress
+}
-- 
2.43.0


From 1e20fe57f8c18748b83958072445dc6eb2e27dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:14 +0000
Subject: [PATCH 30/37] fix: read zstd payloads of several frames

The native decoder is left in a state it cannot continue from when it reads past the end of a frame, so packages whose payload consists of several frames or has skippable frames fail to unpack.
---
 uncompress_cgo.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/uncompress_cgo.go b/uncompress_cgo.go
index a9bbf1c..5f26134 100644
--- a/uncompress_cgo.go
+++ b/uncompress_cgo.go
@@ -10,5 +10,23 @@ import (
 )
 
 func newZstdReader(r io.Reader) (io.ReadCloser, error) {
-	return zstd.NewReader(r), nil
+	return zstd.NewReader(frameReader{r}), nil
+}
+
+// The decoder asks for at least this much when it starts a frame, and then only
+// for what it needs to go on with that frame.
+const zstdStartSize = 128 << 10
+
+// frameReader keeps the decoder from reading past the end of a frame, because
+// it fails if the start of another one is left over at the end of the stream.
+type frameReader struct {
+	r io.Reader
+}
+
+func (r frameReader) Read(d []byte) (int, error) {
+	if len(d) >= zstdStartSize {
+		// no more than the smallest frame header
+		d = d[:5]
+	}
+	return r.r.Read(d)
 }
-- 
2.43.0


From 3a4f7019e8687b820ca0eefed46867d3b44a8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 31/37] fix: fail to extract a directory where something else
 exists

---
 cpio/extract.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index b3a0364..95bc4f7 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -98,8 +98,11 @@ func Extract(rs io.Reader, dest string) error {
 			continue
 		case S_ISDIR:
 			m := os.FileMode(entry.Header.Mode()).Perm()
-			if err := os.Mkdir(target, m); err != nil && !os.IsExist(err) {
-				return err
+			if err := os.Mkdir(target, m); err != nil {
+				// it may exist already, if it is a directory
+				if info, statErr := os.Stat(target); statErr != nil || !info.IsDir() {
+					return err
+				}
 			}
 		case S_ISFIFO:
 			if err := fileutil.Mkfifo(target, uint32(entry.Header.Mode())); err != nil {
-- 
2.43.0


From 8cbc05dceb0bf5c00f71d662b3fb2f94d41a1ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:48 +0000
Subject: [PATCH 32/37] fix: do not overwrite the contents of other links when
 extracting a file

---
 cpio/extract.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 95bc4f7..6c49a0f 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -220,9 +220,10 @@ func checkParent(dest, parent string) error {
 }
 
 // createFile creates or overwrites a regular file. Anything else at that path,
-// such as a symlink to some other file, is replaced.
+// such as a symlink to some other file, is replaced, and so is a file that has
+// other links.
 func createFile(target string) (*os.File, error) {
-	if info, err := os.Lstat(target); err == nil && !info.Mode().IsRegular() && !info.IsDir() {
+	if info, err := os.Lstat(target); err == nil && !info.IsDir() && (!info.Mode().IsRegular() || fileutil.HasLinks(info)) {
 		if err := os.Remove(target); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 98d271ec0afbb8b07a25fa28fb4fc91f195614d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:03 +0000
Subject: [PATCH 33/37] fix: extract hard links that follow the member with the
 contents

---
 cpio/extract.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/cpio/extract.go b/cpio/extract.go
index 6c49a0f..098372f 100644
--- a/cpio/extract.go
+++ b/cpio/extract.go
@@ -52,6 +52,7 @@ func Extract(rs io.Reader, dest string) error {
 		destPrefix += string(filepath.Separator)
 	}
 	linkMap := make(map[linkKey][]string)
+	linkContents := make(map[linkKey]string)
 
 	stream := NewCpioStream(rs)
 
@@ -153,6 +154,7 @@ func Extract(rs io.Reader, dest string) error {
 					return fmt.Errorf("hardlinks missing")
 				}
 				delete(linkMap, key)
+				linkContents[key] = target
 
 				for _, t := range l {
 					if err := os.Link(target, t); err != nil {
@@ -166,18 +168,22 @@ func Extract(rs io.Reader, dest string) error {
 		}
 	}
 
-	// Whatever is left are hardlinks to empty files, no member of which came
-	// with contents.
-	for _, l := range linkMap {
-		f, err := createFile(l[0])
-		if err != nil {
-			return err
-		}
-		if err := f.Close(); err != nil {
-			return err
+	// Whatever is left are hardlinks that come after the member with the
+	// contents, or to empty files, no member of which came with contents.
+	for key, l := range linkMap {
+		first, ok := linkContents[key]
+		if !ok {
+			f, err := createFile(l[0])
+			if err != nil {
+				return err
+			}
+			if err := f.Close(); err != nil {
+				return err
+			}
+			first, l = l[0], l[1:]
 		}
-		for _, t := range l[1:] {
-			if err := os.Link(l[0], t); err != nil {
+		for _, t := range l {
+			if err := os.Link(first, t); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 3b92710cdea473e3f6b5ef57d2373f15d3a46a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:55 +0000
Subject: [PATCH 34/37] fix: put a signed RPM in place when the destination
 does not exist yet

The result of Lstat shadowed the error that decides whether the temporary
file is renamed, so signing to a new path succeeded without delivering
anything.
---
 signatures.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signatures.go b/signatures.go
index c034677..c84b996 100644
--- a/signatures.go
+++ b/signatures.go
@@ -236,8 +236,8 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	if outpath == "-" {
 		outstream = os.Stdout
 	} else {
-		outinfo, err := os.Lstat(outpath)
-		if err == nil && outinfo.Mode()&os.ModeSymlink != 0 {
+		outinfo, statErr := os.Lstat(outpath)
+		if statErr == nil && outinfo.Mode()&os.ModeSymlink != 0 {
 			// don't truncate the input by writing to a symlink to it
 			if info, err := os.Stat(outpath); err == nil && os.SameFile(ininfo, info) {
 				if outpath, err = filepath.EvalSymlinks(outpath); err != nil {
@@ -246,13 +246,13 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 				outinfo = info
 			}
 		}
-		if err == nil && canOverwrite(ininfo, outinfo) {
+		if statErr == nil && canOverwrite(ininfo, outinfo) {
 			ok, err := writeInPlace(outpath, header)
 			if err != nil || ok {
 				return err
 			}
 			// in-place didn't work; fallback to rewrite
-		} else if err == nil && !outinfo.Mode().IsRegular() {
+		} else if statErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
 			outfile, err := os.Create(outpath)
 			if err != nil {
-- 
2.43.0


From 5ab25baeab419a5ce95380c6a5fb705bfc1d9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 35/37] fix: open a pipe that a signed RPM is written to for
 writing only

Opening it for reading as well succeeds without a reader, and what was
written is lost when the pipe is closed before the reader comes.
---
 signatures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signatures.go b/signatures.go
index c84b996..80ffb63 100644
--- a/signatures.go
+++ b/signatures.go
@@ -254,7 +254,7 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 			// in-place didn't work; fallback to rewrite
 		} else if statErr == nil && !outinfo.Mode().IsRegular() {
 			// pipe or something else. open for writing.
-			outfile, err := os.Create(outpath)
+			outfile, err := os.OpenFile(outpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 06e178a1d6539fb44a1d1934babd68f7a546e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:45 +0000
Subject: [PATCH 36/37] fix: do not truncate the target of a symlink that a
 signed RPM is written to

The old content was lost when signing failed half way. Replace the file that
the symlink leads to by renaming, like other files.
---
 signatures.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signatures.go b/signatures.go
index 80ffb63..6d0aa7d 100644
--- a/signatures.go
+++ b/signatures.go
@@ -238,8 +238,8 @@ func rewriteRpm(infile *os.File, outpath string, header *RpmHeader) (err error)
 	} else {
 		outinfo, statErr := os.Lstat(outpath)
 		if statErr == nil && outinfo.Mode()&os.ModeSymlink != 0 {
-			// don't truncate the input by writing to a symlink to it
-			if info, err := os.Stat(outpath); err == nil && os.SameFile(ininfo, info) {
+			// replace the file it leads to as a whole. It may be the input.
+			if info, err := os.Stat(outpath); err == nil && info.Mode().IsRegular() {
 				if outpath, err = filepath.EvalSymlinks(outpath); err != nil {
 					return err
 				}
-- 
2.43.0


From 826b62677ef3081a075be3a130fdfb98f3c4b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:37 +0000
Subject: [PATCH 37/37] fix: don't take a ghost for the hard link that has the
 contents

A %ghost file is not in the payload. If it is the last one of a group of hard
links then another member has the contents, but it was flagged as a link and
its size was taken to be zero, so that the payload could not be read further.
---
 payload.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/payload.go b/payload.go
index 5c8144c..13dbd91 100644
--- a/payload.go
+++ b/payload.go
@@ -61,6 +61,10 @@ func newPayloadReader(r io.Reader, files []FileInfo) *payloadReader {
 		switch fileSt.fileType() {
 		case cpio.S_ISREG:
 			fileSizes[i] = fileSt.Size()
+			if fileSt.flags&RPMFILE_GHOST != 0 {
+				// not in the payload, so it can't be the one with the contents
+				break
+			}
 
 			// all but the last file in a link group will have no contents. flag
 			// them so we don't try to read the nonexistent payload.
-- 
2.43.0

