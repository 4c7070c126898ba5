package core

import (
	"io"
	"sync"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// anyHeader is a header of format f with arbitrary fields and the given announced length.
func anyHeader(f byte, length uint32) *chunk.Header {
	h := &chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: f, StreamId: sym.Uint32("csid")},
		MessageHeader:     chunk.MessageHeader{FormatId: f, Timestamp: sym.Uint32("ts"), TimestampDelta: f == 1 || f == 2, Length: length, TypeId: sym.Byte("typ"), StreamId: sym.Uint32("sid")},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: sym.Uint32("ext")},
	}
	sym.Assume(sym.And(h.BasicHeader.StreamId >= 2, h.BasicHeader.StreamId <= 65599, h.BasicHeader.StreamId != 63, h.MessageHeader.Timestamp <= 0xffffff))
	return h
}

// wireHeader is the reference encoding of a whole header.
func wireHeader(h *chunk.Header) []byte {
	m := &h.MessageHeader
	b := cat(wireBasic(h.BasicHeader.FormatId, h.BasicHeader.StreamId), wireMessage(m.FormatId, m.Timestamp, m.Length, m.TypeId, m.StreamId))
	if m.Timestamp == 0xffffff {
		b = append(b, beBytes(uint64(h.ExtendedTimestamp.Delta), 4)...)
	}
	return b
}

// wireCont is the reference encoding of the header between two pieces of a message.
func wireCont(h *chunk.Header) []byte {
	b := wireBasic(3, h.BasicHeader.StreamId)
	if h.MessageHeader.Timestamp == 0xffffff {
		b = append(b, beBytes(uint64(h.ExtendedTimestamp.Delta), 4)...)
	}
	return b
}

// wireWhole is the reference encoding of a message split at size.
func wireWhole(h *chunk.Header, data []byte, size int) []byte {
	out := wireHeader(h)
	for len(data) > size {
		out = append(out, data[:size]...)
		out = append(out, wireCont(h)...)
		data = data[size:]
	}
	return append(out, data...)
}

// pickSize is an arbitrary size of at least 1, concrete when at most limit.
func pickSize(name string, limit int) int {
	n := sym.Int(name, 1, 0x7fffffff)
	if n <= limit {
		return int(sym.Concretize(uint64(n)))
	}
	return n
}

// Messages of every small length under every write size.
//
//verif:property C05
//verif:bounds every format and header field, payloads of 0..12 (thorough: 0..40) arbitrary bytes, every write size from 1 to 2^31-1
//verif:shards 4 4
func WriterSplit() {
	f := byte(sym.Choose("fmt", 4))
	n := sym.Choose("n", sym.Param(13, 41))
	ws := pickSize("ws", n)
	h := anyHeader(f, uint32(n))
	data := sym.Bytes("data", n)
	w := &buf{}
	cw := chunk.NewWriter(w, ws)
	sym.Assert(cw.WriteSize() == ws, "a new writer does not report the write size it was given")
	sym.Assert(cw.Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
	want := wireWhole(h, data, ws)
	sym.Cover("written")
	sym.Assert(len(w.b) == len(want), "the message occupies the wrong number of bytes")
	sym.Assert(eqBytes(w.b, want), "the message is not sent as header, pieces of the write size and continuation headers")
	sym.ObserveBytes("wire", w.b)
}

var bigCases = []struct{ n, ws int }{
	{127, 128}, {128, 128}, {129, 128}, {255, 128}, {256, 128}, {257, 128}, {255, 256}, {256, 256}, {257, 256},
	{4095, 4096}, {4096, 4096}, {4097, 4096}, {8192, 4096}, {65535, 65536}, {65536, 65536}, {65537, 65536}, {70000, 60000}, {32768, 32768}, {32769, 32768}, {65535, 128}, {66000, 1000},
	{131072, 65536}, {131073, 131072}, {200000, 4096}, {200000, 262144},
}

// Messages of lengths around the usual sizes and their powers of two.
//
//verif:property C05 C06
//verif:bounds payloads of 127..200000 arbitrary bytes at and around write sizes 128, 256, 4096, 32768 and 65536
//verif:steps 60000000
//verif:shards 8 8
func WriterSplitBig() {
	c := bigCases[sym.Choose("case", len(bigCases))]
	f := byte(sym.Choose("fmt", 2) * 3)
	h := anyHeader(f, uint32(c.n))
	data := sym.Bytes("data", c.n)
	w := &buf{}
	sym.Assert(chunk.NewWriter(w, c.ws).Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
	want := wireWhole(h, data, c.ws)
	sym.Cover("written")
	sym.Assert(w.calls == 1, "a message is not handed to the transport in exactly one write")
	sym.Assert(len(w.b) == len(want), "the message occupies the wrong number of bytes")
	sym.Assert(eqBytes(w.b, want), "the message is not sent as header, pieces of the write size and continuation headers")
	sym.Observe("len", uint64(len(w.b)))
}

// Several messages through one writer, with the write size changed between them.
//
//verif:property C05
//verif:bounds 2 (thorough: 3) messages of 0..4 arbitrary bytes, every write size before each of them or none set
//verif:shards 5 5
func WriterSizeChange() {
	w := &buf{}
	k := sym.Param(2, 3)
	var want []byte
	ws := 0
	var cw chunk.Writer
	for i := 0; i < k; i++ {
		n := sym.Choose("n", 5)
		f := byte(0)
		if i > 0 {
			f = byte(sym.Choose("fmt", 2) * 3)
		}
		h := anyHeader(f, uint32(n))
		data := sym.Bytes("data", n)
		if i == 0 {
			ws = pickSize("ws", n)
			cw = chunk.NewWriter(w, ws)
		} else if sym.Choose("change", 2) == 1 {
			ws = pickSize("ws", n)
			cw.SetWriteSize(ws)
			sym.Assert(cw.WriteSize() == ws, "the writer does not report the write size that was set")
		}
		sym.Assert(cw.Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
		want = append(want, wireWhole(h, data, ws)...)
	}
	sym.Cover("written")
	sym.Assert(len(w.b) == len(want), "the messages occupy the wrong number of bytes")
	sym.Assert(eqBytes(w.b, want), "a message is not split at the write size in force when it is written")
	sym.ObserveBytes("wire", w.b)
}

// A message written while another goroutine changes the size is split at one of the two sizes.
//
//verif:property C05 C28
//verif:bounds one message of 0..5 arbitrary bytes, both sizes 1..5, every interleaving of the writer with one size change
//verif:mode full race noobs
func WriterSizeRace() {
	w := &buf{}
	n := sym.Choose("n", 3) + 3
	a, b := 1+sym.Choose("a", n), 1+sym.Choose("b", n)
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 5}, MessageHeader: chunk.MessageHeader{Length: uint32(n), TypeId: 9}}
	data := sym.Bytes("data", n)
	cw := chunk.NewWriter(w, a)
	done := make(chan struct{})
	go func() { cw.SetWriteSize(b); close(done) }()
	err := cw.Write(chunk.New(h, data))
	<-done
	sym.Assert(err == nil, "writing to a working transport fails")
	wa, wb := wireWhole(h, data, a), wireWhole(h, data, b)
	sym.Cover("written")
	sym.Assert(sym.Or(eqBytes(w.b, wa), eqBytes(w.b, wb)), "a message is split at a mixture of two write sizes")
	sym.Assert(cw.WriteSize() == b, "a change of the write size is lost")
}

// sink is a transport that fails or cuts writes short.
type sink struct {
	calls [][]byte
	fail  int // the call that goes wrong, -1 for none
	take  int // how many bytes that call takes
	err   error
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls = append(s.calls, append([]byte(nil), p...))
	if len(s.calls)-1 == s.fail && (s.err != nil || s.take < len(p)) {
		return min(s.take, len(p)), s.err
	}
	return len(p), nil
}

// A message reaches the transport in one write, unmodified, and failures surface.
//
//verif:property C06
//verif:bounds every header, payloads of 0..6 (thorough: 0..12) bytes, every write size; the transport takes nothing, one byte, all but the payload, all but one byte or all, with or without an error, on the first or second of two messages
//verif:shards 7 13
func WriterOneWrite() {
	n := sym.Choose("n", sym.Param(7, 13))
	f := byte(sym.Choose("fmt", 2) * 3)
	ws := pickSize("ws", n)
	h := anyHeader(f, uint32(n))
	before := *h
	data := sym.Bytes("data", n)
	orig := append([]byte(nil), data...)
	c := chunk.New(h, data)
	want := wireWhole(h, data, ws)
	s := &sink{fail: sym.Choose("fail", 3) - 1}
	if s.fail >= 0 {
		if sym.Choose("err", 2) == 1 {
			k := sym.Choose("take", 4)
			s.err = troubleOf(4*n + k + int(f))
			s.take = []int{0, 1, len(want) - 1, len(want)}[k]
		} else {
			s.take = []int{0, 1, len(want) - n, len(want) - 1}[sym.Choose("take", 4)]
			sym.Assume(s.take < len(want))
		}
	}
	cw := chunk.NewWriter(s, ws)
	for i := 0; i < 2; i++ {
		err := cw.Write(c)
		sym.Assert(len(s.calls) == i+1, "a message is not handed to the transport in exactly one write")
		sym.Assert(len(s.calls[i]) == len(want), "the transport is handed the wrong number of bytes")
		sym.Assert(eqBytes(s.calls[i], want), "the transport is not handed exactly the message")
		if i == s.fail {
			sym.Cover("failed")
			sym.Assert(err != nil, "a failed or short transport write is reported as success")
			if s.err != nil {
				sym.Assert(err == s.err, "the transport's error is not the one returned")
			}
		} else {
			sym.Cover("accepted")
			sym.Assert(err == nil, "a message the transport accepted is reported as failed")
		}
		sym.Assert(c.Header == h && sameHeader(h, &before), "writing a message changes its header")
		sym.Assert(len(c.Data) == n, "writing a message changes its payload")
		sym.Assert(eqBytes(c.Data, orig), "writing a message changes its payload")
	}
	sym.ObserveBytes("wire", s.calls[0])
}

// lockedSink is a transport that may be used concurrently, like a net.Conn.
type lockedSink struct {
	mu    sync.Mutex
	calls [][]byte
}

func (s *lockedSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls = append(s.calls, append([]byte(nil), p...))
	return len(p), nil
}

// Messages of concurrent senders never interleave.
//
//verif:property C06 C28
//verif:bounds two senders, one or two messages each of 3 arbitrary bytes, write size 2, every interleaving
//verif:mode full race noobs
func WriterConcurrent() {
	s := &lockedSink{}
	cw := chunk.NewWriter(s, 2)
	mk := func(id uint32, t byte) (*chunk.Chunk, []byte) {
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{Length: 3, TypeId: t}}
		d := sym.Bytes("data", 3)
		return chunk.New(h, d), wireWhole(h, d, 2)
	}
	a1, wa1 := mk(4, 1)
	a2, wa2 := mk(4, 2)
	b1, wb1 := mk(70, 3)
	done := make(chan error, 1)
	go func() { done <- cw.Write(b1) }()
	e1 := cw.Write(a1)
	e2 := cw.Write(a2)
	e3 := <-done
	sym.Assert(e1 == nil && e2 == nil && e3 == nil, "writing to a working transport fails")
	sym.Assert(len(s.calls) == 3, "three messages are not three writes")
	na, nb := 0, 0
	for _, c := range s.calls {
		switch len(c) {
		case len(wb1):
			sym.Assert(eqBytes(c, wb1), "a message is mixed with another")
			nb++
		case len(wa1):
			if na == 0 {
				sym.Assert(eqBytes(c, wa1), "a message is mixed with another or out of order")
			} else {
				sym.Assert(eqBytes(c, wa2), "a message is mixed with another or out of order")
			}
			na++
		default:
			sym.Fail("a write that is not one message")
		}
	}
	sym.Cover("written")
	sym.Assert(na == 2 && nb == 1, "a message is lost or sent twice")
}

var _ io.Writer = (*sink)(nil)
