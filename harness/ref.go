package main

// Independent reference parsers and digests.

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

type refEnt struct {
	Tag, Type, Count, Off int
	Data                  []byte
}

type refHdr struct {
	Ents  []refEnt
	Size  int // bytes of the header in the file, padding included
	Store []byte
	NInd  int
}

func (h *refHdr) get(tag int) *refEnt {
	for i := range h.Ents {
		if h.Ents[i].Tag == tag {
			return &h.Ents[i]
		}
	}
	return nil
}

func be32(b []byte) int { return int(int32(binary.BigEndian.Uint32(b))) }

func parseHeader(b []byte, sig bool) (*refHdr, error) {
	if len(b) < 16 || !bytes.Equal(b[:4], []byte{0x8e, 0xad, 0xe8, 1}) {
		return nil, errors.New("bad intro")
	}
	nind, size := int(binary.BigEndian.Uint32(b[8:])), int(binary.BigEndian.Uint32(b[12:]))
	padded := size
	if sig {
		padded = (size + 7) &^ 7
	}
	if nind > 1<<20 || size > 1<<30 || 16+16*nind+padded > len(b) {
		return nil, errors.New("header longer than data")
	}
	h := &refHdr{Size: 16 + 16*nind + padded, NInd: nind, Store: b[16+16*nind : 16+16*nind+size]}
	for i := 0; i < nind; i++ {
		e := b[16+16*i:]
		en := refEnt{Tag: be32(e), Type: be32(e[4:]), Off: be32(e[8:]), Count: be32(e[12:])}
		if en.Off < 0 || en.Off > size || en.Count < 0 {
			return nil, fmt.Errorf("entry %d out of range", en.Tag)
		}
		var l int
		switch en.Type {
		case tNull:
		case tChar, tInt8, tBin:
			l = en.Count
		case tInt16:
			l = 2 * en.Count
		case tInt32:
			l = 4 * en.Count
		case tInt64:
			l = 8 * en.Count
		case tString, tStrArr, tI18N:
			for k := 0; k < en.Count; k++ {
				z := bytes.IndexByte(h.Store[en.Off+l:], 0)
				if z < 0 {
					return nil, fmt.Errorf("entry %d not terminated", en.Tag)
				}
				l += z + 1
			}
		default:
			return nil, fmt.Errorf("entry %d has type %d", en.Tag, en.Type)
		}
		if en.Off+l > size {
			return nil, fmt.Errorf("entry %d beyond the data", en.Tag)
		}
		en.Data = h.Store[en.Off : en.Off+l]
		h.Ents = append(h.Ents, en)
	}
	return h, nil
}

// wellFormedSig checks the invariants of a signature header as written by a
// signing tool: region first, sorted, aligned, region trailer consistent.
func wellFormedSig(h *refHdr) error {
	if len(h.Ents) == 0 || h.Ents[0].Tag != 62 || h.Ents[0].Type != tBin || h.Ents[0].Count != 16 {
		return errors.New("first entry is not the signature region")
	}
	tr := h.Ents[0].Data
	if be32(tr) != 62 || be32(tr[4:]) != tBin || be32(tr[12:]) != 16 {
		return errors.New("bad region trailer")
	}
	if be32(tr[8:]) != -16*h.NInd {
		return fmt.Errorf("region covers %d bytes of index, not %d", -be32(tr[8:]), 16*h.NInd)
	}
	type span struct{ a, b int }
	var spans []span
	for i, e := range h.Ents {
		if i > 1 && e.Tag <= h.Ents[i-1].Tag {
			return fmt.Errorf("tag %d after %d", e.Tag, h.Ents[i-1].Tag)
		}
		if i > 0 && e.Tag < 64 {
			return fmt.Errorf("stray region tag %d", e.Tag)
		}
		if a := dataAlign[e.Type]; a > 0 && e.Off%a != 0 {
			return fmt.Errorf("tag %d at offset %d is not aligned", e.Tag, e.Off)
		}
		if i > 0 && e.Off+len(e.Data) > h.Ents[0].Off {
			return fmt.Errorf("tag %d is not covered by the region", e.Tag)
		}
		if len(e.Data) > 0 {
			spans = append(spans, span{e.Off, e.Off + len(e.Data)})
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i := 1; i < len(spans); i++ {
		if spans[i].a < spans[i-1].b {
			return errors.New("values overlap")
		}
	}
	return nil
}

// refPkg is a package taken apart by the reference parser.
type refPkg struct {
	Lead    []byte
	Sig     *refHdr
	SigRaw  []byte
	Gen     *refHdr
	GenRaw  []byte
	Payload []byte
}

func parsePkg(b []byte) (*refPkg, error) {
	if len(b) < 96 || !bytes.Equal(b[:4], []byte{0xed, 0xab, 0xee, 0xdb}) {
		return nil, errors.New("bad lead")
	}
	p := &refPkg{Lead: b[:96]}
	var err error
	if p.Sig, err = parseHeader(b[96:], true); err != nil {
		return nil, fmt.Errorf("signature header: %w", err)
	}
	p.SigRaw = b[96 : 96+p.Sig.Size]
	rest := b[96+p.Sig.Size:]
	if p.Gen, err = parseHeader(rest, false); err != nil {
		return nil, fmt.Errorf("general header: %w", err)
	}
	p.GenRaw = rest[:p.Gen.Size]
	p.Payload = rest[p.Gen.Size:]
	return p, nil
}

// refVerifyBlob checks one signature packet with the OpenPGP library directly.
func refVerifyBlob(blob []byte, el openpgp.EntityList, parts ...[]byte) (*packet.Signature, *packet.PublicKey, error) {
	rd := bytes.NewReader(blob)
	p, err := packet.Read(rd)
	if err != nil {
		return nil, nil, err
	}
	if rd.Len() > 0 {
		return nil, nil, errors.New("trailing data")
	}
	sig, ok := p.(*packet.Signature)
	if !ok {
		return nil, nil, errors.New("not a signature")
	}
	if !sig.Hash.Available() {
		return sig, nil, errors.New("hash not available")
	}
	try := func(pk *packet.PublicKey) bool {
		h := sig.Hash.New()
		for _, b := range parts {
			h.Write(b)
		}
		return pk.VerifySignature(h, sig) == nil
	}
	for _, e := range el {
		if try(e.PrimaryKey) {
			return sig, e.PrimaryKey, nil
		}
		for _, s := range e.Subkeys {
			if try(s.PublicKey) {
				return sig, s.PublicKey, nil
			}
		}
	}
	return sig, nil, errors.New("no key verifies the signature")
}

// ---------------------------------------------------------------- readers

// meter counts what it hands out and notices being closed.
type meter struct {
	r      io.Reader
	n      int64
	calls  int64
	closed int
}

func (m *meter) Read(p []byte) (int, error) {
	n, err := m.r.Read(p)
	m.n += int64(n)
	m.calls++
	return n, err
}

func (m *meter) Close() error {
	m.closed++
	return nil
}

// fragReader delivers data in a given style of fragments.
type fragReader struct {
	data  []byte
	style int
	r     *rand.Rand
	err   error // delivered at the end; io.EOF by default
	zero  bool
}

const fragStyles = 8

var fragNames = [fragStyles]string{"whole", "one byte", "half", "random", "random+zero-length", "random, EOF with data", "one byte, EOF with data", "whole, EOF with data"}

func (f *fragReader) Read(p []byte) (int, error) {
	end := f.err
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(f.data) == 0 {
		return 0, end
	}
	k := len(p)
	switch f.style {
	case 1, 6:
		k = 1
	case 2:
		k = (len(p) + 1) / 2
	case 3, 4, 5:
		if f.style == 4 && !f.zero && f.r.IntN(3) == 0 {
			f.zero = true // never twice in a row
			return 0, nil
		}
		f.zero = false
		k = 1 + f.r.IntN(min(len(p), 1+f.r.IntN(4096)))
	}
	k = copy(p[:min(k, len(p))], f.data)
	f.data = f.data[k:]
	if len(f.data) == 0 && f.style >= 5 {
		return k, end
	}
	return k, nil
}

func cryptoNew(h crypto.Hash, parts ...[]byte) []byte {
	x := h.New()
	for _, p := range parts {
		x.Write(p)
	}
	return x.Sum(nil)
}
