//go:build cgo

package main

/*
#include <malloc.h>
static size_t inuse(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
*/
import "C"

import (
	"bytes"
	"io"

	"github.com/DataDog/zstd"
)

const haveCgo = true

// nativeInUse is the number of bytes the C allocator has handed out.
func nativeInUse() int64 { return int64(C.inuse()) }

func nativeZstdLen(data []byte) (int64, error) {
	rd := zstd.NewReader(bytes.NewReader(data))
	defer rd.Close()
	return io.Copy(io.Discard, rd)
}
