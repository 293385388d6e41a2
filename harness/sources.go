package main

// Streams of the kinds programs really pass in.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"strings"
)

var naturalNames = []string{
	"bytes.Reader", "bytes.Reader in the middle", "strings.Reader", "bytes.Buffer", "bufio.Reader", "io.SectionReader", "io.LimitedReader",
	"file", "middle of a file", "pipe", "io.Pipe", "io.MultiReader", "io.TeeReader",
}

// natural presents data through one of the standard readers. Whatever follows
// in the underlying stream is not part of it. done releases what it holds.
func natural(r *rand.Rand, kind int, data []byte) (rd io.Reader, done func()) {
	done = func() {}
	before := randContent(r, 1+r.IntN(300))
	both := func(after bool) []byte {
		b := append(append([]byte{}, before...), data...)
		if after {
			b = append(b, before...)
		}
		return b
	}
	switch naturalNames[kind] {
	case "bytes.Reader":
		return bytes.NewReader(data), done
	case "bytes.Reader in the middle":
		b := bytes.NewReader(both(false))
		_, err := io.CopyN(io.Discard, b, int64(len(before)))
		check(err)
		return b, done
	case "strings.Reader":
		return strings.NewReader(string(data)), done
	case "bytes.Buffer":
		return bytes.NewBuffer(append([]byte{}, data...)), done
	case "bufio.Reader":
		return bufio.NewReaderSize(bytes.NewReader(data), 16+r.IntN(9000)), done
	case "io.SectionReader":
		return io.NewSectionReader(bytes.NewReader(both(true)), int64(len(before)), int64(len(data))), done
	case "io.LimitedReader":
		return io.LimitReader(bytes.NewReader(append(append([]byte{}, data...), before...)), int64(len(data))), done
	case "file", "middle of a file":
		f, err := os.CreateTemp(os.Getenv("RTMON_DIR"), "src")
		check(err)
		check(os.Remove(f.Name()))
		b, at := data, 0
		if naturalNames[kind] != "file" {
			b, at = both(false), len(before)
		}
		_, err = f.Write(b)
		check(err)
		_, err = f.Seek(int64(at), 0)
		check(err)
		return f, func() { f.Close() }
	case "pipe":
		pr, pw, err := os.Pipe()
		check(err)
		gone := make(chan bool)
		go func() {
			for b := data; len(b) > 0; {
				k := min(len(b), 1+len(data)/3)
				if _, err := pw.Write(b[:k]); err != nil {
					break
				}
				b = b[k:]
			}
			pw.Close()
			close(gone)
		}()
		return pr, func() { pr.Close(); <-gone }
	case "io.Pipe":
		pr, pw := io.Pipe()
		gone := make(chan bool)
		go func() {
			for b := data; len(b) > 0; {
				k := min(len(b), 1+len(data)/3)
				if _, err := pw.Write(b[:k]); err != nil {
					break
				}
				b = b[k:]
			}
			pw.Close()
			close(gone)
		}()
		return pr, func() { pr.Close(); <-gone }
	case "io.MultiReader": // (iotest.DataErrReader never returns from a read into no space)
		a, b := r.IntN(len(data)+1), r.IntN(len(data)+1)
		return io.MultiReader(bytes.NewReader(data[:min(a, b)]), strings.NewReader(string(data[min(a, b):max(a, b)])), bytes.NewBuffer(append([]byte{}, data[max(a, b):]...))), done
	case "io.TeeReader":
		return io.TeeReader(bytes.NewReader(data), io.Discard), done
	}
	panic(internalError{fmt.Sprint("source ", kind)})
}
