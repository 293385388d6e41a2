package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
)

// C01: nothing presented as an RPM makes the library panic, crash or hang.

var hostile32 = []uint32{0, 1, 2, 3, 7, 8, 15, 16, 17, 0x7f, 0xff, 0x100, 0xffff, 0x10000, 0xfffff, 0x1000000, 0x0fffffff, 0x10000000, 0x10000001,
	0x1fffffff, 0x20000000, 0x3fffffff, 0x40000000, 0x40000001, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffff8, 0xfffffff9, 0xfffffffe, 0xffffffff}

var interestingTags = []int{gName, gVersion, gRelease, gEpoch, gArch, gOldFilenames, gFileSizes, gFileModes, gFileMtimes, gFileDigests, gFileLinktos,
	gFileFlags, gFileUser, gFileGroup, gFileDevices, gFileInodes, gDirIndexes, gBasenames, gDirnames, gLongFileSizes, gPayloadDigest, gPayloadDigestAlgo,
	gPayloadFormat, gPayloadCompressor, gSize, gLongSize, gSummary,
	sDSA, sRSA, sSHA1, sSHA256, sLongArchiveSize, sMD5, sPGP, sGPG, sReserved, sPayloadSize, 62, 63, 100, 0, -1, 16384, 1 << 30}

// useHeader calls every accessor with many tags. Only panics, crashes and
// non-termination count here.
func useHeader(t *T, hdr *rpmutils.RpmHeader, tags []int) {
	for _, tag := range tags {
		has := hdr.HasTag(tag)
		_, e1 := hdr.Get(tag)
		_, e2 := hdr.GetString(tag)
		_, e3 := hdr.GetStrings(tag)
		_, e4 := hdr.GetInt(tag)
		_, e5 := hdr.GetInts(tag)
		_, e6 := hdr.GetUint32(tag)
		_, e7 := hdr.GetUint32s(tag)
		_, e8 := hdr.GetUint64(tag)
		_, e9 := hdr.GetUint64s(tag)
		_, e10 := hdr.GetBytes(tag)
		_, _ = hdr.GetUint64Fallback(tag, tag+1)
		_, _ = hdr.GetUint64Fallback(tag+1, tag)
		if !has && tag != gOldFilenames {
			for k, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8, e9, e10} {
				if e == nil {
					t.Errorf("accessor %d returned a value for absent tag %d", k, tag)
				}
			}
		}
		t.Event("accessor calls", 13)
	}
	nevra, err := hdr.GetNEVRA()
	if (nevra == nil) != (err != nil) {
		t.Errorf("GetNEVRA: %v, %v", nevra, err)
	}
	if nevra != nil {
		_ = nevra.String()
		_ = rpmutils.NEVRAcmp(*nevra, rpmutils.NEVRA{Name: "x", Epoch: "0", Version: "1", Release: "1"})
		t.Event("NEVRA obtained")
	}
	files, err := hdr.GetFiles()
	if err == nil && len(files) > 0 {
		t.Event("file lists obtained")
	}
	for _, f := range files {
		_, _, _, _, _ = f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags()
		_, _, _, _, _, _ = f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode()
	}
	_, _ = hdr.InstalledSize()
	_, _ = hdr.PayloadSize()
	_ = hdr.IsSource()
	rg := hdr.GetRange()
	if rg.Start > rg.End || rg.Start < 96 {
		t.Errorf("range %+v", rg)
	}
	_ = hdr.OriginalSignatureHeaderSize()
	for _, same := range []bool{true, false, true} {
		if b, err := hdr.DumpSignatureHeader(same); err == nil && len(b) < 112 {
			t.Errorf("dump of %d bytes", len(b))
		}
	}
}

// useRpm drives all operations that take a package stream.
func useRpm(t *T, data []byte, tags []int, what int) {
	ok := 0
	if hdr, err := rpmutils.ReadHeader(bytes.NewReader(data)); err == nil {
		ok++
		useHeader(t, hdr, tags)
	} else if hdr != nil {
		t.Errorf("ReadHeader returned a header along with an error")
	}
	t.Event("ReadHeader calls")
	if what&1 != 0 {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
		big := false // the window an lzma stream declares is reserved at once
		if err == nil {
			if c, err := rpm.Header.GetString(gPayloadCompressor); err == nil && c == "lzma" {
				end := rpm.Header.GetRange().End
				big = end <= len(data) && lzmaWindow(data[end:]) > 64<<20
			}
		}
		if err == nil && !big {
			if pr, err := rpm.PayloadReaderExtended(); err == nil {
				drainPayload(t, pr, 200)
			}
			t.Event("payload readers opened")
		}
	}
	if what&2 != 0 {
		for _, r := range []int{0, 1, 2} {
			var err error
			var hdr *rpmutils.RpmHeader
			switch r {
			case 0:
				hdr, _, err = rpmutils.Verify(bytes.NewReader(data), nil)
			case 1:
				hdr, _, err = rpmutils.Verify(bytes.NewReader(data), ring("rsaA", "sub", "ed25519"))
			case 2:
				hdr, _, err = rpmutils.Verify(bytes.NewReader(data), ring())
			}
			if err == nil {
				ok++
				useHeader(t, hdr, tags[:min(len(tags), 3)])
			}
			t.Event("Verify calls")
		}
	}
	if what&4 != 0 {
		hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), key("ed25519").Key, &rpmutils.SignatureOptions{Hash: crypto.SHA256})
		if err == nil {
			ok++
			useHeader(t, hdr, tags[:min(len(tags), 3)])
		}
		t.Event("SignRpmStream calls")
	}
	if what&8 != 0 {
		dir := t.Dir()
		in := filepath.Join(dir, "in.rpm")
		t.must(os.WriteFile(in, data, 0o644))
		f, err := os.Open(in)
		t.must(err)
		_, _ = rpmutils.SignRpmFile(f, filepath.Join(dir, "out.rpm"), key("ed25519").Key, nil)
		_, _ = f.Seek(0, 0)
		_, _ = rpmutils.RewriteWithSignatures(f, filepath.Join(dir, "out2.rpm"), []byte("abc"), []byte("defg"))
		f.Close()
		t.Event("file signing calls", 2)
	}
	if ok == 0 {
		t.Event("inputs rejected everywhere")
	} else {
		t.Event("inputs accepted somewhere")
	}
}

func drainPayload(t *T, pr rpmutils.PayloadReader, limit int) {
	buf := make([]byte, 3000)
	for k := 0; k < limit; k++ {
		_, err := pr.Next()
		if err != nil {
			break
		}
		_ = pr.IsLink()
		for j := 0; j < 40; j++ {
			if _, err := pr.Read(buf); err != nil {
				break
			}
		}
	}
	// finishing releases the decompressor
	for k := 0; k < limit; k++ {
		if _, err := pr.Next(); err != nil {
			break
		}
	}
}

// rawHeader renders an index and data area without any consistency.
type rawEnt [4]uint32

func rawHeader(ents []rawEnt, data []byte, nind, size uint32, sig bool) []byte {
	var b bytes.Buffer
	b.Write([]byte{0x8e, 0xad, 0xe8, 1, 0, 0, 0, 0})
	_ = binary.Write(&b, binary.BigEndian, nind)
	_ = binary.Write(&b, binary.BigEndian, size)
	for _, e := range ents {
		_ = binary.Write(&b, binary.BigEndian, e)
	}
	b.Write(data)
	if sig {
		for k := len(data); k%8 != 0; k++ {
			b.WriteByte(0)
		}
	}
	return b.Bytes()
}

func hostileU32(r *rand.Rand, near int) uint32 {
	switch r.IntN(3) {
	case 0:
		return uint32(near + r.IntN(9) - 4)
	case 1:
		return hostile32[r.IntN(len(hostile32))]
	}
	return r.Uint32()
}

// chaosHeader makes a header whose entries are partly sane, partly hostile.
func chaosHeader(r *rand.Rand, sig bool, tagPool []int) ([]byte, []int) {
	k := r.IntN(12)
	data := randContent(r, r.IntN(200))
	if r.IntN(2) == 0 {
		data = append(data, 0)
	}
	var ents []rawEnt
	var tags []int
	for i := 0; i < k; i++ {
		tag := tagPool[r.IntN(len(tagPool))]
		if r.IntN(10) == 0 {
			tag = int(int32(hostileU32(r, 1000)))
		}
		tags = append(tags, tag)
		typ := uint32(r.IntN(10))
		if r.IntN(10) == 0 {
			typ = hostileU32(r, 10)
		}
		off := uint32(r.IntN(len(data) + 1))
		count := uint32(r.IntN(4))
		switch r.IntN(8) {
		case 0:
			off = hostileU32(r, len(data))
		case 1:
			count = hostileU32(r, len(data))
		}
		ents = append(ents, rawEnt{uint32(tag), typ, off, count})
	}
	nind, size := uint32(len(ents)), uint32(len(data))
	if r.IntN(25) == 0 {
		nind = hostileU32(r, len(ents))
	}
	if r.IntN(25) == 0 {
		size = hostileU32(r, len(data))
	}
	return rawHeader(ents, data, nind, size, sig), tags
}

// mutateHTags makes a header that parses but whose tags are inconsistent.
func mutateHTags(r *rand.Rand, tags []HTag) []HTag {
	out := append([]HTag{}, tags...)
	for k := 1 + r.IntN(3); k > 0 && len(out) > 0; k-- {
		i := r.IntN(len(out))
		h := out[i]
		switch r.IntN(9) {
		case 0: // remove
			out = append(out[:i], out[i+1:]...)
			continue
		case 1: // other type, same bytes
			h.Type = r.IntN(10)
			h.Count = r.IntN(3)
			if h.Type == tBin || h.Type == tInt8 {
				h.Count = len(h.Data)
			}
		case 2: // no values
			h.Count = 0
		case 3: // one value less
			if h.Count > 0 {
				h.Count--
			}
		case 4: // unusual numbers
			v := make([]uint32, h.Count)
			for j := range v {
				v[j] = hostileU32(r, 1)
			}
			h = i32(h.Tag, v...)
		case 5:
			v := make([]uint64, h.Count)
			for j := range v {
				v[j] = uint64(r.Uint32())<<32 | uint64(hostileU32(r, 1))
			}
			h = i64(h.Tag, v...)
		case 6:
			h = i8(h.Tag, randContent(r, r.IntN(5))...)
		case 7:
			ss := make([]string, r.IntN(4))
			for j := range ss {
				ss[j] = string(bytes.ReplaceAll(randContent(r, r.IntN(20)), []byte{0}, []byte{1}))
			}
			h = strArr(h.Tag, ss...)
		case 8:
			h = bin(h.Tag, randContent(r, r.IntN(300)))
		}
		out[i] = h
	}
	return out
}

// randPgp makes byte strings resembling OpenPGP packets.
func randPgp(r *rand.Rand) []byte {
	switch r.IntN(5) {
	case 0:
		return randContent(r, r.IntN(60))
	case 1: // a valid packet of another type
		var b bytes.Buffer
		_ = key("rsaA").Entity.Serialize(&b)
		x := b.Bytes()
		return x[:min(len(x), 1+r.IntN(len(x)))]
	}
	sig := makeSig([]string{"rsaA", "ed25519", "p256", "sub"}[r.IntN(4)], []crypto.Hash{crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512}[r.IntN(5)], time.Unix(1600000000, 0), []byte("data"))
	switch r.IntN(4) {
	case 0:
		return append(sig, randContent(r, r.IntN(4))...)
	case 1: // hash and algorithm identifiers come early in the packet
		i := r.IntN(min(len(sig), 12))
		sig[i] = byte(r.IntN(256))
	case 2:
		sig[r.IntN(len(sig))] ^= byte(1 << r.IntN(8))
	case 3:
		sig = sig[:r.IntN(len(sig))]
	}
	return sig
}

// makeSig makes a detached signature with the OpenPGP library directly.
func makeSig(name string, hash crypto.Hash, at time.Time, parts ...[]byte) []byte {
	k := key(name).Key
	sig := &packet.Signature{SigType: packet.SigTypeBinary, CreationTime: at, PubKeyAlgo: k.PubKeyAlgo, Hash: hash, IssuerKeyId: &k.KeyId}
	h := hash.New()
	for _, p := range parts {
		h.Write(p)
	}
	check(sig.Sign(h, k, nil))
	var b bytes.Buffer
	check(sig.Serialize(&b))
	return b.Bytes()
}

func basePkg(t *T, i int) *Pkg {
	comp := []string{"uncompressed", "gzip", "", "xz", "zstd", "lzma"}[i%6]
	return genPkg(t.R, PkgOpt{MaxFiles: 6, Compressor: comp, Stripped: t.R.IntN(3) == 0})
}

func tagsOf(p *Pkg) []int {
	var out []int
	for _, h := range p.Sig {
		out = append(out, h.Tag, h.Tag+sigBase)
	}
	for _, h := range p.Gen {
		out = append(out, h.Tag)
	}
	return append(out, interestingTags...)
}

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "each case is one byte stream presented as an RPM (structured header chaos, inconsistent but parseable tags with digests made consistent, mutated field of a valid package, hostile PGP packets, truncation, random bytes); non-trivial: at least the lead is accepted, distinct by input bytes",
		Assumptions: []string{
			"termination is decided by a bound of CPU time per case (150 s, far above the milliseconds a case takes) or by all threads of the process being blocked",
		},
		Require: map[string]int64{"ReadHeader calls": 1000, "inputs accepted somewhere": 300, "inputs rejected everywhere": 300, "Verify calls": 500, "SignRpmStream calls": 300},
		Groups: []Group{
			{Name: "chaos-headers", N: n(6000, 200000), Run: func(t *T, i int) {
				r := t.R
				pool := interestingTags
				sig, t1 := chaosHeader(r, true, pool)
				gen, t2 := chaosHeader(r, false, pool)
				if r.IntN(3) == 0 { // sane digests so that the general header is reached
					p := Pkg{Digests: DigestCfg{SHA256: "ok", MD5: "ok"}, Payload: randContent(r, r.IntN(50)), GenBytes: gen}
					p.FinishSig(r)
					sig = p.SigBytes
				}
				data := append(append(buildLead("x", false), sig...), gen...)
				data = append(data, randContent(r, r.IntN(60))...)
				t.Sig(data)
				tags := append(t1, t2...)
				for _, x := range t1 {
					tags = append(tags, x+sigBase)
				}
				useRpm(t, data, append(tags, interestingTags[r.IntN(len(interestingTags))]), 15&^(8*b2i(i%10 != 0)))
			}},
			{Name: "inconsistent-tags", N: n(4000, 120000), Run: func(t *T, i int) {
				r := t.R
				p := basePkg(t, i)
				if r.IntN(3) > 0 {
					p.Gen = mutateHTags(r, p.Gen)
				}
				if r.IntN(3) > 0 {
					p.Sig = mutateHTags(r, p.Sig)
				}
				if r.IntN(3) == 0 {
					for _, tag := range []int{sRSA, sPGP, sDSA, sGPG} {
						if r.IntN(2) == 0 {
							p.Sig = append(dropTags(p.Sig, tag), bin(tag, randPgp(r)))
						}
					}
				}
				if r.IntN(4) == 0 {
					p.Digests.Algo = int(hostileU32(r, 8))
					if algoHash(p.Digests.Algo) == nil {
						p.Digests.Payload = "=00"
					}
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				if i < 4 {
					t.Sample(map[string]any{"gen_tags": len(p.Gen), "sig_tags": len(p.Sig), "bytes": len(data)})
				}
				useRpm(t, data, tagsOf(p), 15&^(8*b2i(i%10 != 0)))
			}},
			{Name: "pgp-packets", N: n(1500, 60000), Run: func(t *T, i int) {
				r := t.R
				p := genPkg(r, PkgOpt{RawPayload: 10 + r.IntN(50), Plain: true})
				for _, tag := range []int{sRSA, sPGP, sDSA, sGPG} {
					if r.IntN(2) == 0 {
						p.Sig = append(p.Sig, bin(tag, randPgp(r)))
					}
				}
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				useRpm(t, data, []int{sigBase + sRSA}, 2)
			}},
			{Name: "mutated-fields", N: n(4000, 150000), Run: func(t *T, i int) {
				r := t.R
				var data []byte
				if i%3 == 0 {
					fx := fixtureRpms()
					data = append([]byte{}, fixture(fx[r.IntN(len(fx))])...)
				} else {
					data = basePkg(t, i).Bytes()
				}
				ref, err := parsePkg(data)
				t.must(err)
				hdrs := [][]byte{data[96 : 96+len(ref.SigRaw)], data[96+len(ref.SigRaw) : 96+len(ref.SigRaw)+len(ref.GenRaw)]}
				for k := 1 + r.IntN(3); k > 0; k-- {
					which := r.IntN(2)
					h := hdrs[which]
					nind := []int{ref.Sig.NInd, ref.Gen.NInd}[which]
					var pos int
					switch {
					case r.IntN(8) == 0:
						pos = 8 + 4*r.IntN(2)
					case nind > 0 && r.IntN(4) > 0:
						pos = 16 + 16*r.IntN(nind) + 4*r.IntN(4)
					default:
						pos = r.IntN(len(h) - 3)
					}
					old := binary.BigEndian.Uint32(h[pos:])
					v := hostileU32(r, int(old))
					if r.IntN(4) == 0 {
						v = old ^ 1<<r.IntN(32)
					}
					binary.BigEndian.PutUint32(h[pos:], v)
				}
				if i%2 == 0 { // make the digests agree again where the packages' structure allows
					data = fixDigests(data)
				}
				t.Sig(data)
				useRpm(t, data, interestingTags, 7)
			}},
			{Name: "truncated-and-random", N: n(1500, 30000), Run: func(t *T, i int) {
				r := t.R
				data := basePkg(t, i).Bytes()
				switch r.IntN(4) {
				case 0:
					data = randContent(r, r.IntN(2000))
					t.Trivial()
				case 1:
					data = append(buildLead("r", false), randContent(r, r.IntN(500))...)
				default:
					data = data[:r.IntN(len(data))]
				}
				t.Sig(data)
				useRpm(t, data, interestingTags[:5], 7)
			}},
			{Name: "payload-of-broken-lists", N: n(1000, 20000), Run: func(t *T, i int) {
				// consistent digests, hostile file metadata with a real payload
				r := t.R
				p := genPkg(r, PkgOpt{MaxFiles: 8, Compressor: "uncompressed", Stripped: r.IntN(2) == 0})
				p.Gen = mutateHTags(r, p.Gen)
				p.Finish(r)
				data := p.Bytes()
				t.Sig(data)
				rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
				if err != nil {
					t.Event("rejected by ReadRpm")
					return
				}
				pr, err := rpm.PayloadReaderExtended()
				if err != nil {
					t.Event("rejected by PayloadReaderExtended")
					return
				}
				t.Event("payload iterations")
				_ = pr.IsLink()
				drainPayload(t, pr, 100)
				_ = pr.IsLink()
			}},
		},
	})
}

// fixDigests recomputes the header digests of a package whose structure may be
// broken, where the signature header can still be found.
func fixDigests(data []byte) []byte {
	if len(data) < 112 {
		return data
	}
	sig, err := parseHeader(data[96:], true)
	if err != nil {
		return data
	}
	rest := data[96+sig.Size:]
	genLen := len(rest)
	if len(rest) >= 16 {
		nind, size := int(binary.BigEndian.Uint32(rest[8:])), int(binary.BigEndian.Uint32(rest[12:]))
		if nind < 1<<20 && size < 1<<24 && 16+16*nind+size <= len(rest) {
			genLen = 16 + 16*nind + size
		}
	}
	gen, payload := rest[:genLen], rest[genLen:]
	put := func(tag int, v []byte) {
		for i := 0; i < sig.NInd; i++ {
			e := data[96+16+16*i:]
			if be32(e) == tag {
				off := 96 + 16 + 16*sig.NInd + be32(e[8:])
				if off+len(v) <= 96+sig.Size {
					copy(data[off:], v)
				}
			}
		}
	}
	put(sSHA1, []byte(fmt.Sprintf("%x", cryptoNew(crypto.SHA1, gen))))
	put(sSHA256, []byte(fmt.Sprintf("%x", cryptoNew(crypto.SHA256, gen))))
	put(sMD5, cryptoNew(crypto.MD5, gen, payload))
	return data
}

var _ = io.EOF
var _ = errors.New
var _ = cpio.TRAILER
