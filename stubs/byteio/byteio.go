// Package byteio is a stand-in for vimagination.zapto.org/byteio, which cannot
// be fetched in this sandbox. It has the part of the API that limage uses, so
// that package xcf can be type-checked (and, in demonstrations, run).
package byteio

import (
	"io"
	"math"
)

// StickyBigEndianReader keeps the first error it meets and then reads zeros.
type StickyBigEndianReader struct {
	Reader io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

func (s *StickyBigEndianReader) Read(b []byte) (int, error) {
	if s.Err != nil {
		return 0, s.Err
	}
	var n int
	n, s.Err = s.Reader.Read(b)
	s.Count += int64(n)
	return n, s.Err
}

func (s *StickyBigEndianReader) fill(n int) bool {
	if s.Err != nil {
		return false
	}
	var m int
	m, s.Err = io.ReadFull(s.Reader, s.buffer[:n])
	s.Count += int64(m)
	return s.Err == nil
}

func (s *StickyBigEndianReader) ReadUint8() uint8 {
	if !s.fill(1) {
		return 0
	}
	return s.buffer[0]
}

func (s *StickyBigEndianReader) ReadInt8() int8 { return int8(s.ReadUint8()) }

func (s *StickyBigEndianReader) ReadByte() (byte, error) {
	b := s.ReadUint8()
	return b, s.Err
}

func (s *StickyBigEndianReader) ReadUint16() uint16 {
	if !s.fill(2) {
		return 0
	}
	return uint16(s.buffer[0])<<8 | uint16(s.buffer[1])
}

func (s *StickyBigEndianReader) ReadInt16() int16 { return int16(s.ReadUint16()) }

func (s *StickyBigEndianReader) ReadUint32() uint32 {
	if !s.fill(4) {
		return 0
	}
	return uint32(s.buffer[0])<<24 | uint32(s.buffer[1])<<16 | uint32(s.buffer[2])<<8 | uint32(s.buffer[3])
}

func (s *StickyBigEndianReader) ReadInt32() int32 { return int32(s.ReadUint32()) }

func (s *StickyBigEndianReader) ReadUint64() uint64 {
	if !s.fill(8) {
		return 0
	}
	var v uint64
	for _, b := range s.buffer[:8] {
		v = v<<8 | uint64(b)
	}
	return v
}

func (s *StickyBigEndianReader) ReadInt64() int64 { return int64(s.ReadUint64()) }

func (s *StickyBigEndianReader) ReadFloat32() float32 {
	return math.Float32frombits(s.ReadUint32())
}

func (s *StickyBigEndianReader) ReadFloat64() float64 {
	return math.Float64frombits(s.ReadUint64())
}

// StickyBigEndianWriter keeps the first error it meets and then writes nothing.
type StickyBigEndianWriter struct {
	Writer io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

func (s *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if s.Err != nil {
		return 0, s.Err
	}
	var n int
	n, s.Err = s.Writer.Write(p)
	s.Count += int64(n)
	return n, s.Err
}

func (s *StickyBigEndianWriter) WriteUint8(d uint8) {
	s.buffer[0] = d
	s.Write(s.buffer[:1])
}

func (s *StickyBigEndianWriter) WriteInt8(d int8) { s.WriteUint8(uint8(d)) }

func (s *StickyBigEndianWriter) WriteUint16(d uint16) {
	s.buffer[0], s.buffer[1] = byte(d>>8), byte(d)
	s.Write(s.buffer[:2])
}

func (s *StickyBigEndianWriter) WriteInt16(d int16) { s.WriteUint16(uint16(d)) }

func (s *StickyBigEndianWriter) WriteUint32(d uint32) {
	s.buffer[0], s.buffer[1], s.buffer[2], s.buffer[3] = byte(d>>24), byte(d>>16), byte(d>>8), byte(d)
	s.Write(s.buffer[:4])
}

func (s *StickyBigEndianWriter) WriteInt32(d int32) { s.WriteUint32(uint32(d)) }

func (s *StickyBigEndianWriter) WriteUint64(d uint64) {
	for i := range s.buffer[:8] {
		s.buffer[i] = byte(d >> (56 - 8*uint(i)))
	}
	s.Write(s.buffer[:8])
}

func (s *StickyBigEndianWriter) WriteInt64(d int64) { s.WriteUint64(uint64(d)) }

func (s *StickyBigEndianWriter) WriteFloat32(d float32) { s.WriteUint32(math.Float32bits(d)) }

func (s *StickyBigEndianWriter) WriteFloat64(d float64) { s.WriteUint64(math.Float64bits(d)) }

// BigEndianWriter writes big-endian values and returns every error.
type BigEndianWriter struct {
	Writer io.Writer
	buffer [9]byte
}

func (e *BigEndianWriter) Write(p []byte) (int, error) { return e.Writer.Write(p) }

func (e *BigEndianWriter) WriteUint8(d uint8) (int, error) {
	e.buffer[0] = d
	return e.Writer.Write(e.buffer[:1])
}

func (e *BigEndianWriter) WriteUint16(d uint16) (int, error) {
	e.buffer[0], e.buffer[1] = byte(d>>8), byte(d)
	return e.Writer.Write(e.buffer[:2])
}

func (e *BigEndianWriter) WriteUint32(d uint32) (int, error) {
	e.buffer[0], e.buffer[1], e.buffer[2], e.buffer[3] = byte(d>>24), byte(d>>16), byte(d>>8), byte(d)
	return e.Writer.Write(e.buffer[:4])
}
