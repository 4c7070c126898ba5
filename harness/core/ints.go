package core

import (
	"io"

	"github.com/WatchBeam/rtmp/spec"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// Readers return what the bytes denote, zero extended, and leave the input alone.
//
//verif:property C22
//verif:bounds every input of 0 bytes up to the width, with 0..3 more bytes of capacity behind it
func IntRead() {
	kind := sym.Choose("kind", 4)
	width := []int{2, 4, 4, 8}[kind]
	n := sym.Choose("n", width+1)
	more := sym.Choose("more", 4)
	arr := sym.Bytes("b", n+more)
	keep := append([]byte(nil), arr...)
	b := arr[:n]
	var got, want uint64
	switch kind {
	case 0:
		got, want = uint64(spec.Uint16(b)), be(b)
	case 1:
		got, want = uint64(spec.Uint32(b)), be(b)
	case 2:
		got, want = uint64(spec.LittleEndianUint32(b)), le(b)
	default:
		got, want = spec.Uint64(b), be(b)
	}
	sym.Cover("read")
	sym.Assert(got == want, "the value read is not the one the bytes denote")
	sym.Assert(eqBytes(arr[:n], keep[:n]), "reading an integer alters the input")
	if kind == 2 && n < 4 && n+more >= 4 {
		// the padding lands in the caller's array
		padded := append(append([]byte(nil), keep[:n]...), make([]byte, 4-n)...)
		sym.Known("C22-pad", eqBytes(arr, append(padded, keep[4:]...)))
	}
	sym.Assert(eqBytes(arr[n:], keep[n:]), "reading an integer alters what lies behind the input")
	sym.Observe("v", got)
}

// once is a destination that takes some bytes of one write.
type once struct {
	b     []byte
	calls int
	take  int
	err   error
}

func (o *once) Write(p []byte) (int, error) {
	o.calls++
	n := len(p)
	if o.take < n {
		n = o.take
	}
	o.b = append(o.b, p...)
	return n, o.err
}

// Writers emit exactly the bytes of the value and report what the destination reports.
//
//verif:property C22
//verif:bounds every value of every writer; the destination takes any number of bytes with or without an error
func IntWrite() {
	kind := sym.Choose("kind", 5)
	v := sym.Uint32("v")
	width := []int{1, 2, 3, 4, 4}[kind]
	o := &once{take: sym.Choose("take", width+1)}
	if e := sym.Choose("err", 1+len(troubles)); e > 0 {
		o.err = troubles[e-1]
	}
	put := []func(io.Writer) (int, error){
		func(w io.Writer) (int, error) { return spec.PutUint8(byte(v), w) },
		func(w io.Writer) (int, error) { return spec.PutUint16(uint16(v), w) },
		func(w io.Writer) (int, error) { return spec.PutUint24(v, w) },
		func(w io.Writer) (int, error) { return spec.PutUint32(v, w) },
		func(w io.Writer) (int, error) { return spec.LittleEndianPutUint32(v, w) },
	}[kind]
	n, err := put(o)
	sym.Cover("written")
	sym.Assert(n == o.take && err == o.err, "the count or error of the write is not reported")
	sym.Assert(o.calls == 1 && len(o.b) == width, "an integer is written with the wrong number of bytes")
	want := beBytes(uint64(v), width)
	if kind == 4 {
		want = leBytes(uint64(v), 4)
	}
	sym.Assert(eqBytes(o.b, want), "an integer is written with the wrong bytes")
	// and back
	switch kind {
	case 1:
		sym.Assert(spec.Uint16(o.b) == uint16(v), "a 16 bit integer does not read back")
	case 2:
		sym.Assert(spec.Uint32(o.b) == v&0xffffff, "a 24 bit integer does not read back")
	case 3:
		sym.Assert(spec.Uint32(o.b) == v, "a 32 bit integer does not read back")
	case 4:
		sym.Assert(spec.LittleEndianUint32(o.b) == v, "a little endian integer does not read back")
	}
	sym.ObserveBytes("b", o.b)
}

// Single bytes and runs of bytes are read as they are.
//
//verif:property C22
//verif:bounds runs of 0..9 and 4096 bytes out of a source with up to 3 more; minimum and maximum of any two 64-bit integers
func ByteRead() {
	n := sym.Choose("n", 11)
	if n == 10 {
		n = 4096
	}
	s := &src{b: sym.Bytes("b", n+sym.Choose("more", 4))}
	b, err := spec.ReadBytes(s, n)
	sym.Assert(err == nil && len(b) == n && s.pos == n, "the wrong number of bytes is read")
	sym.Assert(eqBytes(b, s.b[:n]), "bytes are altered while being read")
	if s.pos < len(s.b) {
		c, err := spec.ReadByte(s)
		sym.Assert(err == nil && s.pos == n+1, "a single byte is not read")
		sym.Assert(c == s.b[n], "a single byte is altered while being read")
		sym.Cover("byte")
	} else {
		_, err := spec.ReadByte(s)
		sym.Assert(err == io.EOF, "the end of the source is not reported")
		sym.Cover("end")
	}
	x, y := int(sym.Uint64("x")), int(sym.Uint64("y"))
	lo, hi := spec.Min(x, y), spec.Max(x, y)
	sym.Assert(sym.And(lo <= x, lo <= y, sym.Or(lo == x, lo == y)), "the minimum is wrong")
	sym.Assert(sym.And(hi >= x, hi >= y, sym.Or(hi == x, hi == y)), "the maximum is wrong")
	sym.Observe("n", uint64(len(b)))
}
