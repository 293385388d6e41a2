package main

import (
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand/v2"
	"os/exec"

	kzstd "github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"
)

// tool runs a system compressor; ok is false if it is not installed.
func tool(data []byte, name string, args ...string) (out []byte, ok bool) {
	path, err := exec.LookPath(name)
	if err != nil {
		return nil, false
	}
	cmd := exec.Command(path, args...)
	cmd.Stdin = bytes.NewReader(data)
	out, err = cmd.Output()
	if err != nil {
		return nil, false
	}
	return out, true
}

// number of layouts compress knows per compressor
var compressLayouts = map[string]int{"gzip": 12, "bzip2": 6, "xz": 10, "lzma": 6, "zstd": 10, "uncompressed": 1}

// split cuts data at random places, for multi-stream layouts
func split(r *rand.Rand, data []byte, k int) [][]byte {
	var out [][]byte
	for i := 0; i < k-1; i++ {
		c := r.IntN(len(data) + 1)
		out = append(out, data[:c])
		data = data[c:]
	}
	return append(out, data)
}

func check(err error) {
	if err != nil {
		panic(internalError{err.Error()})
	}
}

// compress renders data with the given compressor and layout (0 is plain).
func compress(r *rand.Rand, kind string, data []byte, layout int) []byte {
	var b bytes.Buffer
	switch kind {
	case "uncompressed", "":
		return data
	case "gzip":
		level := gzip.DefaultCompression
		streams := 1
		switch {
		case layout >= 1 && layout <= 9:
			level = layout
		case layout == 10:
			streams = 3
		case layout == 11:
			level = gzip.HuffmanOnly
		}
		for _, part := range split(r, data, streams) {
			w, err := gzip.NewWriterLevel(&b, level)
			check(err)
			if r.IntN(2) == 0 {
				w.Name = "payload"
				w.Comment = "c"
				w.Extra = []byte("xx")
			}
			_, err = w.Write(part)
			check(err)
			if r.IntN(3) == 0 {
				check(w.Flush())
			}
			check(w.Close())
		}
	case "bzip2":
		streams, level := 1, 9
		switch layout {
		case 1:
			level = 1
		case 2:
			level = 5
		case 3:
			streams = 2
		case 4:
			streams, level = 4, 1
		}
		for _, part := range split(r, data, streams) {
			out, ok := tool(part, "bzip2", "-c", fmt.Sprintf("-%d", level))
			if !ok {
				panic(internalError{"bzip2 is not available"})
			}
			b.Write(out)
		}
	case "xz":
		if layout >= 5 {
			args := [][]string{{"-c", "-9"}, {"-c", "--check=none"}, {"-c", fmt.Sprint("--block-size=", max(4096, len(data)/100)), "-T1"}, {"-c", "--check=sha256", "-0"}, {"-c", "-6", "--check=crc32"}}[layout-5]
			if out, ok := tool(data, "xz", args...); ok {
				return out
			}
		}
		cfg := xz.WriterConfig{}
		streams := 1
		switch layout {
		case 1:
			cfg.CheckSum = xz.CRC32
		case 2:
			cfg.CheckSum = xz.SHA256
		case 3:
			cfg.BlockSize = max(1000, int64(len(data)/40)) // each takes some memory
		case 4:
			streams = 3
		}
		for _, part := range split(r, data, streams) {
			w, err := cfg.NewWriter(&b)
			check(err)
			_, err = w.Write(part)
			check(err)
			check(w.Close())
		}
	case "lzma":
		cfg := lzma.WriterConfig{}
		switch layout {
		case 1:
			cfg.DictCap = 1 << 16
		case 2:
			cfg.Properties = &lzma.Properties{LC: 0, LP: 2, PB: 0}
		case 3:
			cfg.SizeInHeader, cfg.Size = true, int64(len(data))
		case 4:
			cfg.EOSMarker = true
		case 5:
			if out, ok := tool(data, "xz", "--format=lzma", "-c", "-9"); ok {
				return out
			}
		}
		w, err := cfg.NewWriter(&b)
		check(err)
		_, err = w.Write(data)
		check(err)
		check(w.Close())
	case "zstd":
		if layout >= 6 {
			args := [][]string{{"-c", "-19"}, {"-c", "-1", "--no-check"}, {"-c", "--fast=5"}, {"-c", "-3", "--long=27"}}[layout-6]
			if out, ok := tool(data, "zstd", args...); ok {
				return out
			}
		}
		opts := []kzstd.EOption{kzstd.WithEncoderConcurrency(1)}
		streams := 1
		switch layout {
		case 1:
			opts = append(opts, kzstd.WithEncoderLevel(kzstd.SpeedFastest))
		case 2:
			opts = append(opts, kzstd.WithEncoderLevel(kzstd.SpeedBestCompression))
		case 3:
			opts = append(opts, kzstd.WithEncoderCRC(false))
		case 4:
			streams = 3
		case 5:
			opts = append(opts, kzstd.WithWindowSize(1<<10), kzstd.WithEncoderLevel(kzstd.SpeedDefault))
		}
		for _, part := range split(r, data, streams) {
			w, err := kzstd.NewWriter(&b, opts...)
			check(err)
			_, err = w.Write(part)
			check(err)
			check(w.Close())
		}
	default:
		panic(internalError{"compressor " + kind})
	}
	return b.Bytes()
}

// decompressed returns how many bytes an independent decoder (used directly,
// not through the code under test) can deliver from a possibly broken stream.
func decompressed(kind string, data []byte) (k int64, err error) {
	return decompressedResuming(kind, data, 0)
}

// decompressedResuming keeps reading after so many failures: some decoders
// deliver what they have only then.
func decompressedResuming(kind string, data []byte, resume int) (k int64, err error) {
	var rd io.Reader
	switch kind {
	case "gzip":
		rd, err = gzip.NewReader(bytes.NewReader(data))
	case "bzip2":
		rd = bzip2.NewReader(bytes.NewReader(data))
	case "xz":
		rd, err = xz.NewReader(bytes.NewReader(data))
	case "lzma":
		rd, err = lzma.NewReader(bytes.NewReader(data))
	case "zstd":
		k, err = nativeZstdLen(data)
		d, e := kzstd.NewReader(bytes.NewReader(data), kzstd.WithDecoderConcurrency(1))
		if e != nil {
			return k, e
		}
		defer d.Close()
		k2, err2 := io.Copy(io.Discard, d)
		if k2 > k {
			return k2, err2
		}
		return k, err
	default:
		return int64(len(data)), nil
	}
	if err != nil {
		return 0, err
	}
	for {
		c, err := io.Copy(io.Discard, rd)
		k += c
		if err == nil || resume == 0 {
			return k, err
		}
		resume--
	}
}
