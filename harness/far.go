package main

// Packages whose payload is too large to be held: position-dependent bytes that
// are produced while they are read.

import (
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"hash"
	"io"
	"math/rand/v2"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

// farBlock is repeated with a change in every block, which is cheaper than
// computing each byte.
var farBlock = func() []byte {
	b := make([]byte, 1<<20)
	for i := range b {
		b[i] = patternAt(int64(i) * 7919)
	}
	return b
}()

// farReader delivers size bytes; the byte at flip (if not negative) is wrong.
type farReader struct {
	pos, size, flip int64
	step            int // at most that many bytes at once, if not 0
}

func farAt(pos int64) byte {
	if pos%(1<<20) < 8 {
		return byte(pos >> 20 >> (8 * (pos % (1 << 20))))
	}
	return farBlock[pos%(1<<20)]
}

func (f *farReader) Read(p []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	in := f.pos % (1 << 20)
	k := int(min(int64(len(p)), 1<<20-in, f.size-f.pos))
	if f.step > 0 {
		k = min(k, f.step)
	}
	copy(p[:k], farBlock[in:])
	for j := int64(0); j < int64(k) && in+j < 8; j++ {
		p[j] = farAt(f.pos + j)
	}
	if f.flip >= f.pos && f.flip < f.pos+int64(k) {
		p[f.flip-f.pos] ^= 1
	}
	f.pos += int64(k)
	return k, nil
}

var farCache = map[string]any{}

// farDigest is the digest of an optional head followed by size bytes.
func farDigest(h func() hash.Hash, name string, head []byte, size, flip int64) []byte {
	id := fmt.Sprintf("%s %x %d %d", name, sha256.Sum256(head), size, flip)
	if v, ok := farCache[id]; ok {
		return v.([]byte)
	}
	x := h()
	x.Write(head)
	_, err := io.Copy(x, &farReader{size: size, flip: flip})
	check(err)
	v := x.Sum(nil)
	farCache[id] = v
	return v
}

// farPkg makes lead and headers of a package with a payload of that size.
// protect says what protects the payload: "sha256" and "md5" digests, or "sig"
// for a signature of everything by the named key.
func farPkg(r *rand.Rand, size int64, protect, keyName string) *Pkg {
	p := &Pkg{Name: "far"}
	p.Gen = append(basicTags(r, p.Name), strTag(gPayloadCompressor, "uncompressed"))
	if protect == "sha256" || protect == "both" {
		p.Gen = append(p.Gen, strArr(gPayloadDigest, hex.EncodeToString(farDigest(sha256.New, "sha256", nil, size, -1))), i32(gPayloadDigestAlgo, 8))
	}
	p.GenBytes = buildHeader(r, p.Gen, HOpt{Region: 63}, false)
	p.SigOpt.Region = 62
	s1, s256 := sha1.Sum(p.GenBytes), sha256.Sum256(p.GenBytes)
	p.Sig = []HTag{strTag(sSHA1, hex.EncodeToString(s1[:])), strTag(sSHA256, hex.EncodeToString(s256[:])), bin(sReserved, make([]byte, 3000))}
	if protect == "md5" || protect == "both" {
		p.Sig = append(p.Sig, bin(sMD5, farDigest(md5.New, "md5", p.GenBytes, size, -1)))
	}
	if protect == "sig" {
		k := key(keyName).Key
		sig := &packet.Signature{SigType: packet.SigTypeBinary, CreationTime: time.Unix(1600000000, 0), PubKeyAlgo: k.PubKeyAlgo, Hash: crypto.SHA256, IssuerKeyId: &k.KeyId}
		h := sha256.New()
		h.Write(p.GenBytes)
		_, err := io.Copy(h, &farReader{size: size, flip: -1})
		check(err)
		check(sig.Sign(h, k, nil))
		var b bytes.Buffer
		check(sig.Serialize(&b))
		p.Sig = append(p.Sig, bin(sPGP, b.Bytes()))
	}
	p.Lead = buildLead(p.Name, false)
	p.SigBytes = buildHeader(r, p.Sig, p.SigOpt, true)
	return p
}

// farRenew records the MD5 digest of the changed content.
func (p *Pkg) farRenew(r *rand.Rand, size, flip int64) {
	p.Sig = append(dropTags(p.Sig, sMD5), bin(sMD5, farDigest(md5.New, "md5", p.GenBytes, size, flip)))
	p.SigBytes = buildHeader(r, p.Sig, p.SigOpt, true)
}

// farStream is the package with a payload of size bytes, one of them wrong.
func (p *Pkg) farStream(r *rand.Rand, size, flip int64) io.Reader {
	return io.MultiReader(bytes.NewReader(p.Lead), bytes.NewReader(p.SigBytes), bytes.NewReader(p.GenBytes), &farReader{size: size, flip: flip, step: []int{0, 0, 40000, 65536}[r.IntN(4)]})
}

// farSpots are places where a change has to be noticed.
func farSpots(r *rand.Rand, size int64) []int64 {
	spots := []int64{size - 1, r.Int64N(size)}
	for _, x := range []int64{1 << 20, 1 << 27, 1 << 28, 1 << 31, 1 << 32} {
		if x < size {
			spots = append(spots, x, x+r.Int64N(size-x))
		}
	}
	return spots
}
