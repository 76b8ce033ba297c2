package model

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"hash"
)

type hasher struct {
	buf  []byte
	size int
	sum  func([]byte) []byte
}

func (h *hasher) Write(p []byte) (int, error) { h.buf = append(h.buf, p...); return len(p), nil }
func (h *hasher) WriteString(s string) (int, error) {
	h.buf = append(h.buf, s...)
	return len(s), nil
}
func (h *hasher) Sum(b []byte) []byte { return append(b, h.sum(h.buf)...) }
func (h *hasher) Reset()              { h.buf = nil }
func (h *hasher) Size() int           { return h.size }
func (h *hasher) BlockSize() int      { return 64 }

func NewSHA256() hash.Hash {
	return &hasher{size: 32, sum: func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }}
}
func NewSHA1() hash.Hash {
	return &hasher{size: 20, sum: func(b []byte) []byte { s := sha1.Sum(b); return s[:] }}
}
func NewMD5() hash.Hash {
	return &hasher{size: 16, sum: func(b []byte) []byte { s := md5.Sum(b); return s[:] }}
}
