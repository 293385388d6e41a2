//go:build !cgo

package main

const haveCgo = false

func nativeInUse() int64 { return 0 }

func nativeZstdLen(data []byte) (int64, error) { return 0, nil }
