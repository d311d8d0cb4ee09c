// Package memio is a stand-in for vimagination.zapto.org/memio, which cannot be
// fetched in this sandbox.
package memio

import (
	"bytes"
	"io"
)

// Buffer is a byte slice that is read from and written to.
type Buffer []byte

func (s *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(*s) == 0 {
		return 0, io.EOF
	}
	n := copy(p, *s)
	*s = (*s)[n:]
	return n, nil
}

func (s *Buffer) Write(p []byte) (int, error) {
	*s = append(*s, p...)
	return len(p), nil
}

func (s *Buffer) ReadByte() (byte, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}
	b := (*s)[0]
	*s = (*s)[1:]
	return b, nil
}

func (s *Buffer) WriteByte(b byte) error {
	*s = append(*s, b)
	return nil
}

// ReadMem reads from memory.
type ReadMem struct{ *bytes.Reader }

// Open opens a byte slice for reading.
func Open(data []byte) ReadMem { return ReadMem{bytes.NewReader(data)} }

// WriteMem writes to a byte slice, which it grows.
type WriteMem struct {
	data *[]byte
	pos  int64
}

// Create truncates the byte slice and opens it for writing.
func Create(data *[]byte) *WriteMem {
	*data = (*data)[:0]
	return &WriteMem{data: data}
}

func (b *WriteMem) WriteAt(p []byte, off int64) (int, error) {
	if need := int(off) + len(p); need > len(*b.data) {
		if need > cap(*b.data) {
			nd := make([]byte, need, need*2)
			copy(nd, *b.data)
			*b.data = nd
		} else {
			old := len(*b.data)
			*b.data = (*b.data)[:need]
			for i := old; i < int(off); i++ {
				(*b.data)[i] = 0
			}
		}
	}
	return copy((*b.data)[off:], p), nil
}

func (b *WriteMem) Write(p []byte) (int, error) {
	n, err := b.WriteAt(p, b.pos)
	b.pos += int64(n)
	return n, err
}
