package core

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// scribble overwrites everything a delivered message consists of.
func scribble(c *chunk.Chunk) {
	h := c.Header
	h.BasicHeader.FormatId = sym.Byte("x-bf")
	h.BasicHeader.StreamId = sym.Uint32("x-csid")
	h.MessageHeader = chunk.MessageHeader{
		FormatId:       sym.Byte("x-mf"),
		Timestamp:      sym.Uint32("x-ts"),
		TimestampDelta: sym.Bool("x-delta"),
		Length:         sym.Uint32("x-len"),
		TypeId:         sym.Byte("x-typ"),
		StreamId:       sym.Uint32("x-sid"),
	}
	h.ExtendedTimestamp.Delta = sym.Uint32("x-ext")
	sym.Fill("x-data", c.Data)
	c.Data = append(c.Data, 0xee, 0xee)
}

// ownHistory writes k messages on two chunk streams and says where each of them ends. With
// cut, the first message of the second chunk stream arrives inside the second of the first.
func ownHistory(k, size int) (wire []byte, at []int, want []msg) {
	w := &buf{}
	cw := chunk.NewWriter(w, size)
	var last [2]*chunk.Header
	ids := [2]uint32{uint32(4 + sym.Choose("csid", 2)*70), 9}
	for i := 0; i < k; i++ {
		s := 0
		if i > 0 {
			s = sym.Choose("stream", 2)
		}
		var h *chunk.Header
		n := 1
		if last[s] == nil {
			h = firstHeader(uint32(n))
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
			h.BasicHeader.StreamId = ids[s]
		} else {
			f := byte(sym.Choose("fmt", 4))
			if f <= 1 {
				n = 2 * sym.Choose("length", 2)
			} else {
				n = int(sym.Concretize(uint64(last[s].MessageHeader.Length)))
			}
			h = follow(last[s], f, uint32(n))
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
		}
		last[s] = h
		data := sym.Bytes("data", n)
		want = append(want, msg{*h, append([]byte(nil), data...)})
		sym.Assert(cw.Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
		at = append(at, len(w.b))
	}
	return w.b, at, want
}

// Whatever a consumer does to the messages it was given, the others are as they were sent.
//
//verif:property C36
//verif:bounds every sequence of 3 (thorough: 4) messages of 0..2 arbitrary bytes on two chunk streams, formats 0..3, at chunk size 1 or 128; after each delivery the consumer keeps the message or overwrites all of its header and payload with anything and appends to it
//verif:shards 8 8
func OwnMessages() {
	x := sym.Choose("part", 8)
	size := []int{1, 128}[x%2]
	k := sym.Param(3, 4)
	wire, at, want := ownHistory(k, size)
	p := newPipe()
	r := chunk.NewReader(p, size, chunk.NewNormalizer())
	go r.Recv()
	var kept []event
	var asSent []msg
	got := 0
	for i := range want {
		p.in <- wire[got:at[i]]
		got = at[i]
		e := poll(r)
		sym.Assert(e != nil, "a message is not delivered although its last byte has arrived")
		checkEvents([]event{*e}, want[i:i+1])
		if i < 2 && x/2>>i&1 == 0 || i >= 2 && sym.Choose("keep", 2) == 0 {
			kept = append(kept, *e)
			asSent = append(asSent, want[i])
			continue
		}
		scribble(e.c)
		sym.Cover("scribbled")
	}
	checkEvents(kept, asSent)
	observeEvents(kept)
	close(p.in)
	e := poll(r)
	sym.Assert(e != nil && e.err != nil, "the end of the stream is not reported")
	r.Close()
	sym.Quiesce()
}

// The consumer overwrites what it was given while the reader goes on.
//
//verif:property C36
//verif:bounds three messages of 1 byte on one or two chunk streams, the later ones of formats 0..3; each is compared and then overwritten and appended to while the reader receives what follows; every schedule
//verif:mode full race noobs
//verif:shards 4 4
func OwnAnySchedule() {
	f := byte(sym.Choose("fmt", 4))
	two := sym.Choose("two", 2)
	var last [2]*chunk.Header
	w := &buf{}
	cw := chunk.NewWriter(w, 128)
	var want []msg
	for i := 0; i < 3; i++ {
		s := i & two
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: uint32(4 + s)}, MessageHeader: chunk.MessageHeader{Timestamp: uint32(i), Length: 1, TypeId: byte(8 + s), StreamId: 5}}
		if last[s] != nil {
			h = &chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: uint32(4 + s)}, MessageHeader: last[s].MessageHeader}
			h.MessageHeader.FormatId = f
			h.MessageHeader.TimestampDelta = f == 1 || f == 2
		}
		last[s] = h
		want = append(want, msg{*h, []byte{byte(i)}})
		sym.Assert(cw.Write(chunk.New(h, []byte{byte(i)})) == nil, "writing to a working transport fails")
	}
	r := chunk.NewReader(&src{b: w.b}, 128, chunk.NewNormalizer())
	done := make(chan struct{})
	go func() { r.Recv(); close(done) }()
	for i := range want {
		c := <-r.Chunks()
		checkEvents([]event{{c: c}}, want[i:i+1])
		*c.Header = chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: 2, StreamId: 77}, MessageHeader: chunk.MessageHeader{FormatId: 2, Length: 99, TypeId: 77, StreamId: 77}}
		c.Data[0] = 0xee
		c.Data = append(c.Data, 0xee)
	}
	sym.Assert(<-r.Errs() != nil, "the end of the stream is not reported")
	r.Close()
	<-done
	sym.Cover("read")
}

// The consumer looks at what it was given only after more has arrived.
//
//verif:property C36
//verif:bounds every sequence of 3 (thorough: 4) messages of 0..2 arbitrary bytes on two chunk streams, formats 0..3, at chunk size 1 or 128, all of them delivered; then any of them overwritten with anything and appended to, and the others compared, until none is left
//verif:shards 2 2
func OwnLater() {
	size := []int{1, 128}[sym.Choose("size", 2)]
	k := sym.Param(3, 4)
	wire, _, want := ownHistory(k, size)
	p := newPipe()
	r := chunk.NewReader(p, size, chunk.NewNormalizer())
	go r.Recv()
	p.in <- wire
	var kept []event
	for range want {
		e := poll(r)
		sym.Assert(e != nil, "a message is not delivered although its last byte has arrived")
		kept = append(kept, *e)
	}
	checkEvents(kept, want)
	for len(kept) > 0 {
		n := sym.Choose("which", len(kept))
		e := kept[n]
		kept = append(append([]event(nil), kept[:n]...), kept[n+1:]...)
		want = append(append([]msg(nil), want[:n]...), want[n+1:]...)
		scribble(e.c)
		checkEvents(kept, want)
		sym.Cover("scribbled")
	}
	close(p.in)
	e := poll(r)
	sym.Assert(e != nil && e.err != nil, "the end of the stream is not reported")
	r.Close()
	sym.Quiesce()
}
