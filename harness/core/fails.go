package core

import (
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// failing takes a number of bytes and then fails, for good. It records whether it is
// written to after that.
type failing struct {
	b     []byte
	left  int
	err   error
	over  bool
	after bool
}

func (w *failing) Write(p []byte) (int, error) {
	if w.over {
		w.after = true
	}
	n := min(len(p), w.left)
	w.b = append(w.b, p[:n]...)
	w.left -= n
	if n < len(p) {
		w.over = true
		return n, w.err
	}
	return n, nil
}

// writeFails writes to a destination that fails after any number of bytes of want.
func writeFails(want []byte, write func(io.Writer) error) {
	sym.Assume(len(want) > 0)
	left := len(want)
	if left > 64 {
		left = []int{0, 1, 3, 4, 7, 8, 9, 1000, len(want) - 1, len(want)}[sym.Choose("left", 10)]
	} else {
		left = sym.Choose("left", len(want)+1)
	}
	w := &failing{left: left, err: troubleOf(3*left + sym.Choose("error", 3))}
	err := write(w)
	if left == len(want) {
		sym.Cover("room")
		sym.Assert(err == nil, "writing to a destination with enough room fails")
	} else {
		sym.Cover("failed")
		sym.Assert(err == w.err, "the failure of a destination is not reported")
		sym.Assert(!w.after, "a destination that failed is written to again")
	}
	sym.Assert(len(w.b) <= left, "more is written than the encoding has")
	sym.Assert(eqBytes(w.b, want[:len(w.b)]), "what reaches a destination before it fails is not the beginning of the encoding")
}

// Headers to failing destinations.
//
//verif:property C35
//verif:bounds every chunk header of every format and its three parts by themselves; chunk stream ids 2..65599 but 63 (see C01), all other fields arbitrary; three failures after 0..18 bytes
//verif:shards 4 4
func FailHeader() {
	f := byte(sym.Choose("fmt", 4))
	h := anyHeader(f, sym.Uint32("length"))
	b := wireBasic(f, h.BasicHeader.StreamId)
	m := wireMessage(f, h.MessageHeader.Timestamp, h.MessageHeader.Length, h.MessageHeader.TypeId, h.MessageHeader.StreamId)
	switch sym.Choose("part", 4) {
	case 0:
		writeFails(b, h.BasicHeader.Write)
	case 1:
		writeFails(m, h.MessageHeader.Write)
	case 2:
		writeFails(beBytes(uint64(h.ExtendedTimestamp.Delta), 4), h.ExtendedTimestamp.Write)
	default:
		writeFails(wireHeader(h), h.Write)
	}
}

// Control messages to failing destinations.
//
//verif:property C35
//verif:bounds every control message, events with 0..3 data bytes; three failures after any number of bytes
func FailControl() {
	kind := sym.Choose("kind", 6)
	body := 0
	if kind == 3 {
		body = sym.Choose("body", 4)
	}
	c, want := anyControl(kind, body)
	writeFails(want, c.Write)
}

// Handshake packets to failing destinations.
//
//verif:property C35
//verif:bounds every packet; three failures after 0, 1, 3, 4, 7, 8, 9, 1000 and 1535 bytes
func FailPacket() {
	a := &handshake.AckPacket{Time1: sym.Uint32("t1"), Time2: sym.Uint32("t2")}
	sym.Fill("payload", a.Payload[:])
	writeFails(cat(beBytes(uint64(a.Time1), 4), beBytes(uint64(a.Time2), 4), a.Payload[:]), a.Write)
}

// Messages to failing destinations.
//
//verif:property C35
//verif:bounds messages of every format of 0, 1 and 4 arbitrary bytes, arbitrary headers (chunk stream id 63 excepted), write sizes 1, 3 and 5; three failures after any number of bytes
//verif:shards 4 4
func FailMessage() {
	f := byte(sym.Choose("fmt", 4))
	n := []int{0, 1, 4}[sym.Choose("n", 3)]
	h := anyHeader(f, uint32(n))
	size := []int{1, 3, 5}[sym.Choose("size", 3)]
	d := sym.Bytes("d", n)
	writeFails(wireWhole(h, d, size), func(w io.Writer) error { return chunk.NewWriter(w, size).Write(chunk.New(h, d)) })
}
