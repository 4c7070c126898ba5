package core

import (
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// event is one thing the reader did: a delivered message or a reported error.
type event struct {
	c   *chunk.Chunk
	err error
}

// readAll runs a reader over a source that ends, until it reports that end.
func readAll(r chunk.Reader, limit int) []event { return readUntil(r, io.EOF, limit) }

// readUntil does so over a source that ends with end.
func readUntil(r chunk.Reader, end error, limit int) []event {
	var evs []event
	done := make(chan struct{})
	go func() { r.Recv(); close(done) }()
	for {
		select {
		case c := <-r.Chunks():
			evs = append(evs, event{c: c})
		case err := <-r.Errs():
			if err == end || end == io.EOF && err == io.ErrUnexpectedEOF {
				r.Close()
				<-done
				return evs
			}
			evs = append(evs, event{err: err})
		}
		sym.Assert(len(evs) <= limit, "the reader reports more messages and errors than the bytes can hold")
	}
}

// msg is a message as it should arrive.
type msg struct {
	h    chunk.Header
	data []byte
}

// checkEvents compares what the reader did with the messages that were sent.
func checkEvents(evs []event, want []msg) {
	sym.Assert(len(evs) == len(want), "the reader delivers more or fewer messages than were sent")
	for i, e := range evs {
		sym.Assert(e.err == nil, "the reader reports an error for a well-formed message")
		m := &want[i]
		sym.Assert(e.c.Header.BasicHeader.StreamId == m.h.BasicHeader.StreamId, "a message arrives with another chunk stream id")
		sym.Assert(sym.And(e.c.Header.MessageHeader.Timestamp == m.h.MessageHeader.Timestamp, e.c.Header.MessageHeader.TimestampDelta == m.h.MessageHeader.TimestampDelta), "a message arrives with another timestamp")
		sym.Assert(e.c.Header.MessageHeader.Length == m.h.MessageHeader.Length, "a message arrives with another length")
		sym.Assert(e.c.Header.MessageHeader.TypeId == m.h.MessageHeader.TypeId, "a message arrives with another type")
		sym.Assert(e.c.Header.MessageHeader.StreamId == m.h.MessageHeader.StreamId, "a message arrives with another message stream id")
		sym.Assert(sym.Or(m.h.MessageHeader.Timestamp != 0xffffff, e.c.Header.ExtendedTimestamp.Delta == m.h.ExtendedTimestamp.Delta), "a message arrives with another extended timestamp")
		sym.Assert(sym.And(e.c.Header.BasicHeader.FormatId == m.h.BasicHeader.FormatId, e.c.Header.MessageHeader.FormatId == m.h.MessageHeader.FormatId), "a message arrives with another format")
		sym.Assert(len(e.c.Data) == len(m.data), "a message arrives with more or fewer payload bytes")
		sym.Assert(eqBytes(e.c.Data, m.data), "a message arrives with other payload bytes")
	}
}

func observeEvents(evs []event) {
	for _, e := range evs {
		if e.err != nil {
			sym.Observe("err", 1)
			continue
		}
		sym.Observe("csid", uint64(e.c.StreamId()))
		sym.Observe("typ", uint64(e.c.TypeId()))
		sym.Observe("ts", uint64(e.c.Header.MessageHeader.Timestamp))
		if len(e.c.Data) < 100 {
			sym.ObserveBytes("data", e.c.Data)
		}
	}
}

// follow makes a header of format f that continues last on the same chunk stream: the
// fields its format does not carry are those of last.
func follow(last *chunk.Header, f byte, length uint32) *chunk.Header {
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: last.BasicHeader.StreamId}}
	m, l := &h.MessageHeader, &last.MessageHeader
	*m = *l
	m.FormatId = f
	if f <= 2 {
		m.Timestamp = sym.Uint32("ts")
		sym.Assume(m.Timestamp <= 0xffffff)
		m.TimestampDelta = f != 0
	}
	if f <= 1 {
		m.Length, m.TypeId = length, sym.Byte("typ")
		sym.Assume(m.TypeId != 1)
	}
	if f == 0 {
		m.StreamId = sym.Uint32("sid")
	}
	h.ExtendedTimestamp.Delta = sym.Uint32("ext")
	return h
}

func firstHeader(length uint32) *chunk.Header {
	h := anyHeader(0, length)
	sym.Assume(h.MessageHeader.TypeId != 1)
	return h
}

// Messages written by a writer arrive unchanged at a reader of the same chunk size.
//
//verif:property C07
//verif:bounds 2 messages of 0..3 (thorough: 0..5) arbitrary bytes, every chunk size, every header: the first of format 0 on any chunk stream, the second of format 0 on any, or of any format on the same chunk stream
//verif:shards 4 6
func WriteRead() {
	n := sym.Choose("n", sym.Param(4, 6))
	size := pickSize("size", n)
	h := firstHeader(uint32(n))
	data := sym.Bytes("data", n)
	w := &buf{}
	cw := chunk.NewWriter(w, size)
	want := []msg{{*h, data}}
	sym.Assert(cw.Write(chunk.New(h, data)) == nil, "writing to a working transport fails")

	k := sym.Choose("second", 5) // formats 0..3 on the same chunk stream, 4: format 0 on another
	n2 := n
	if k <= 1 || k == 4 {
		n2 = []int{0, n, n + 1}[sym.Choose("n2", 3)]
	}
	var h2 *chunk.Header
	if k == 4 {
		h2 = firstHeader(uint32(n2))
		sym.Assume(h2.BasicHeader.StreamId != h.BasicHeader.StreamId)
	} else {
		h2 = follow(h, byte(k), uint32(n2))
	}
	data2 := sym.Bytes("data2", n2)
	want = append(want, msg{*h2, data2})
	sym.Assert(cw.Write(chunk.New(h2, data2)) == nil, "writing to a working transport fails")

	evs := readAll(chunk.NewReader(&src{b: w.b}, size, chunk.NewNormalizer()), 2)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// Three or more messages in a row on one or two chunk streams.
//
//verif:property C07
//verif:bounds 3 (thorough: 4) messages of 0..2 arbitrary bytes on two arbitrary chunk streams, formats 0..3, chunk sizes 1, 2 and above
//verif:shards 3 3
func WriteReadHistory() {
	size := sym.Choose("size", 3) + 1
	w := &buf{}
	cw := chunk.NewWriter(w, size)
	var last [2]*chunk.Header
	var want []msg
	k := sym.Param(3, 4)
	for i := 0; i < k; i++ {
		s := 0
		if i > 0 {
			s = sym.Choose("stream", 2)
		}
		n := 0
		f := byte(0)
		var h *chunk.Header
		if last[s] == nil {
			n = 1 + 2*sym.Choose("n", 2)
			h = firstHeader(uint32(n))
			h.MessageHeader.Timestamp = sym.Uint32("t24")
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
			if o := last[1-s]; o != nil {
				sym.Assume(o.BasicHeader.StreamId != h.BasicHeader.StreamId)
			}
			sym.Assume(h.BasicHeader.StreamId < 63)
		} else {
			f = byte(sym.Choose("fmt", 4))
			n = int(sym.Concretize(uint64(last[s].MessageHeader.Length)))
			if f <= 1 {
				n = 2 - n/2
			}
			h = follow(last[s], f, uint32(n))
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
		}
		last[s] = h
		data := sym.Bytes("data", n)
		want = append(want, msg{*h, data})
		sym.Assert(cw.Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
	}
	evs := readAll(chunk.NewReader(&src{b: w.b}, size, chunk.NewNormalizer()), k)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// Long messages.
//
//verif:property C07
//verif:bounds one message of 127..70000 arbitrary bytes at and around chunk sizes 128, 256, 4096, 32768 and 65536, then a short one of format 3
//verif:steps 60000000
//verif:shards 7 7
func WriteReadBig() {
	c := bigCases[sym.Choose("case", len(bigCases))]
	h := firstHeader(uint32(c.n))
	data := sym.Bytes("data", c.n)
	w := &buf{}
	sym.Assert(chunk.NewWriter(w, c.ws).Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
	evs := readAll(chunk.NewReader(&src{b: w.b}, c.ws, chunk.NewNormalizer()), 2)
	sym.Cover("read")
	checkEvents(evs, []msg{{*h, data}})
	observeEvents(evs)
}

// A chunk stream id of 63 is encoded as the marker of the three byte form.
//
//verif:property C07
//verif:bounds one message of 2 bytes on any chunk stream 2..65599, 63 included
func WriteReadAnyStream() {
	id := sym.Uint32("id")
	sym.Assume(sym.And(id >= 2, id <= 65599))
	sym.Known("csid63-C07", id == 63)
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{Length: 2, TypeId: 9, Timestamp: 5, StreamId: 1}}
	data := sym.Bytes("data", 2)
	w := &buf{}
	sym.Assert(chunk.NewWriter(w, 1).Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
	evs := readAll(chunk.NewReader(&src{b: w.b}, 1, chunk.NewNormalizer()), 30)
	sym.Cover("read")
	checkEvents(evs, []msg{{*h, data}})
	observeEvents(evs)
}

// sender is one chunk stream of a peer: a queue of messages, cut into chunks as it goes.
type sender struct {
	msgs []msg
	sent int // bytes of the current message
	head bool
}

func (s *sender) pending() bool { return len(s.msgs) > 0 }

// emit sends the next chunk of at most size payload bytes; it returns the message the chunk completes.
func (s *sender) emit(w *buf, size int) *msg {
	m := &s.msgs[0]
	if !s.head {
		w.b = append(w.b, wireHeader(&m.h)...)
		s.head = true
	} else {
		w.b = append(w.b, wireCont(&m.h)...)
	}
	n := min(size, len(m.data)-s.sent)
	w.b = append(w.b, m.data[s.sent:s.sent+n]...)
	s.sent += n
	if s.sent < len(m.data) {
		return nil
	}
	s.msgs, s.sent, s.head = s.msgs[1:], 0, false
	return m
}

// Chunks of several chunk streams interleaved in every order.
//
//verif:property C08
//verif:bounds two chunk streams with arbitrary ids, messages of 1..4 bytes at chunk size 1..3 followed by one of any format on the first stream; every interleaving
//verif:shards 3 3
func Interleave() {
	size := sym.Choose("size", 3) + 1
	var ss [2]sender
	for i := range ss {
		n := 1 + sym.Choose("n", sym.Param(3, 4))
		h := firstHeader(uint32(n))
		sym.Assume(h.BasicHeader.StreamId < 320)
		ss[i].msgs = append(ss[i].msgs, msg{*h, sym.Bytes("data", n)})
	}
	a, b := &ss[0].msgs[0].h, &ss[1].msgs[0].h
	sym.Assume(a.BasicHeader.StreamId != b.BasicHeader.StreamId)
	sym.Assume(sym.And(a.MessageHeader.Timestamp < 0xffffff, a.BasicHeader.StreamId < 63))
	f := byte(sym.Choose("fmt", 4))
	h := follow(a, f, 2)
	sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
	n := 2
	if f > 1 {
		n = len(ss[0].msgs[0].data)
	}
	ss[0].msgs = append(ss[0].msgs, msg{*h, sym.Bytes("data", n)})
	w := &buf{}
	var want []msg
	for ss[0].pending() || ss[1].pending() {
		k := 0
		if !ss[0].pending() {
			k = 1
		} else if ss[1].pending() {
			k = sym.Choose("next", 2)
		}
		if m := ss[k].emit(w, size); m != nil {
			want = append(want, *m)
		}
	}
	evs := readAll(chunk.NewReader(&src{b: w.b}, size, chunk.NewNormalizer()), 3)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// Whole messages in the middle of another.
//
//verif:property C08
//verif:bounds a message of 9 or 10 bytes on any chunk stream at chunk size 8, and between its two chunks one or two whole messages of any type but 1, with 0..6 arbitrary bytes, on any other chunk stream
//verif:shards 7 7
func InterleaveWhole() {
	n := sym.Choose("n", 7)
	var b sender
	l := 9 + sym.Choose("l", 2)
	h := firstHeader(uint32(l))
	sym.Assume(sym.And(h.BasicHeader.StreamId < 63, h.MessageHeader.Timestamp < 0xffffff))
	b.msgs = append(b.msgs, msg{*h, sym.Bytes("data", l)})
	w := &buf{}
	b.emit(w, 8)
	var want []msg
	for i := sym.Choose("two", 2); i >= 0; i-- {
		m := n
		if i > 0 {
			m = 4
		}
		g := firstHeader(uint32(m))
		sym.Assume(g.BasicHeader.StreamId != h.BasicHeader.StreamId)
		if i > 0 {
			sym.Assume(sym.And(g.BasicHeader.StreamId < 63, g.MessageHeader.Timestamp < 0xffffff))
		}
		var a sender
		a.msgs = append(a.msgs, msg{*g, sym.Bytes("whole", m)})
		want = append(want, *a.emit(w, 8))
	}
	want = append(want, *b.emit(w, 8))
	evs := readAll(chunk.NewReader(&src{b: w.b}, 8, chunk.NewNormalizer()), 3)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// Three chunk streams, interleaved in every order.
//
//verif:property C08
//verif:bounds three chunk streams with arbitrary ids below 63, messages of 2 or 3 bytes at chunk size 1 (thorough: 1 or 2); every interleaving
//verif:shards 8 8
func Interleave3() {
	lens := sym.Choose("lens", 8)
	size := 1 + sym.Choose("size", sym.Param(1, 2))
	var ss [3]sender
	for i := range ss {
		n := 1 + (lens>>i)&1
		if sym.Param(0, 1) == 1 {
			n++
		}
		h := firstHeader(uint32(n))
		sym.Assume(sym.And(h.BasicHeader.StreamId < 63, h.MessageHeader.Timestamp < 0xffffff))
		for j := 0; j < i; j++ {
			sym.Assume(ss[j].msgs[0].h.BasicHeader.StreamId != h.BasicHeader.StreamId)
		}
		ss[i].msgs = append(ss[i].msgs, msg{*h, sym.Bytes("data", n)})
	}
	w := &buf{}
	var want []msg
	for ss[0].pending() || ss[1].pending() || ss[2].pending() {
		var ready []int
		for i := range ss {
			if ss[i].pending() {
				ready = append(ready, i)
			}
		}
		k := ready[sym.Choose("next", len(ready))]
		if m := ss[k].emit(w, size); m != nil {
			want = append(want, *m)
		}
	}
	evs := readAll(chunk.NewReader(&src{b: w.b}, size, chunk.NewNormalizer()), 3)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// pipe is a source that blocks until it is given more bytes.
type pipe struct {
	in  chan []byte
	cur []byte
}

func newPipe() *pipe { return &pipe{in: make(chan []byte, 64)} }

func (p *pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.cur) == 0 {
		c, ok := <-p.in
		if !ok {
			return 0, io.EOF
		}
		p.cur = c
	}
	n := copy(b, p.cur)
	p.cur = p.cur[n:]
	return n, nil
}

// poll takes what the reader has to offer right now, once it cannot go on by itself.
func poll(r chunk.Reader) *event {
	sym.Quiesce()
	select {
	case c := <-r.Chunks():
		return &event{c: c}
	case err := <-r.Errs():
		return &event{err: err}
	default:
		return nil
	}
}

// A message is delivered when its last byte has arrived: not before, and not later.
//
//verif:property C08 C10
//verif:bounds two interleaved messages of 0..3 bytes at chunk size 1..3, the stream stopping at any byte and then going on
//verif:shards 3 3
func DeliveredOnTime() {
	size := sym.Choose("size", 3) + 1
	var ss [2]sender
	for i := range ss {
		n := sym.Choose("n", 4)
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: uint32(4 + 80*i)}, MessageHeader: chunk.MessageHeader{Timestamp: 7, Length: uint32(n), TypeId: 8, StreamId: sym.Uint32("sid")}}
		ss[i].msgs = append(ss[i].msgs, msg{*h, sym.Bytes("data", n)})
	}
	w := &buf{}
	var want []msg
	var at []int
	for ss[0].pending() || ss[1].pending() {
		k := 0
		if !ss[0].pending() {
			k = 1
		} else if ss[1].pending() {
			k = sym.Choose("next", 2)
		}
		if m := ss[k].emit(w, size); m != nil {
			want = append(want, *m)
			at = append(at, len(w.b))
		}
	}
	p := newPipe()
	r := chunk.NewReader(p, size, chunk.NewNormalizer())
	go r.Recv()
	var evs []event
	got := 0
	for i := 0; i < len(want); i++ {
		// all but the last byte of the message, then the last byte
		for _, upto := range []int{at[i] - 1, at[i]} {
			p.in <- w.b[got:upto]
			got = upto
			e := poll(r)
			if upto < at[i] {
				sym.Assert(e == nil, "something is delivered before its last byte has arrived")
			} else {
				sym.Assert(e != nil, "a message is not delivered although its last byte has arrived")
				evs = append(evs, *e)
			}
		}
	}
	sym.Cover("read")
	checkEvents(evs, want)
	close(p.in)
	e := poll(r)
	sym.Assert(e != nil && e.err == io.EOF, "the end of the stream is not reported")
	r.Close()
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "the reader does not stop")
	observeEvents(evs)
}

// A Set Chunk Size message amid other messages governs exactly the chunks after it.
//
//verif:property C09
//verif:bounds two messages of 1..5 bytes on two chunk streams, started at chunk size 1..3; a Set Chunk Size of every value 1..2^32-1 between any two chunks, on chunk stream 2 or another, with any timestamp and message stream id; every interleaving
//verif:shards 9 9
func SetChunkSizeAmid() {
	sel := sym.Choose("sel", 9)
	size := sel%3 + 1
	lens := sel / 3
	var ss [2]sender
	for i := range ss {
		n := []int{3, 5, 4, 2, 5, 1}[lens*2+i]
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: uint32(3 + 70*i)}, MessageHeader: chunk.MessageHeader{Timestamp: 9, Length: uint32(n), TypeId: sym.Byte("typ"), StreamId: sym.Uint32("sid")}}
		sym.Assume(h.MessageHeader.TypeId != 1)
		ss[i].msgs = append(ss[i].msgs, msg{*h, sym.Bytes("data", n)})
	}
	v := sym.Uint32("size")
	sym.Assume(v >= 1)
	next := 1 << 40
	if v <= 5 {
		next = int(sym.Concretize(uint64(v)))
	}
	id := uint32(2)
	if sym.Choose("other", 2) == 1 {
		id = 9
	}
	w := &buf{}
	var want []msg
	announced := false
	for ss[0].pending() || ss[1].pending() || !announced {
		var ready []int
		for i := range ss {
			if ss[i].pending() {
				ready = append(ready, i)
			}
		}
		if !announced {
			ready = append(ready, 2)
		}
		k := ready[sym.Choose("next", len(ready))]
		if k == 2 {
			// the announcement, itself split at the size so far
			h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{Timestamp: sym.Uint32("ts"), Length: 4, TypeId: 1, StreamId: sym.Uint32("sid")}}
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
			w.b = append(w.b, wireWhole(h, beBytes(uint64(v), 4), size)...)
			announced = true
			size = next
		} else if m := ss[k].emit(w, size); m != nil {
			want = append(want, *m)
		}
	}
	r := chunk.NewReader(&src{b: w.b}, sel%3+1, chunk.NewNormalizer())
	sym.Assert(r.ReadSize() == sel%3+1, "a new reader does not report the chunk size it was given")
	evs := readAll(r, 3)
	sym.Cover("read")
	checkEvents(evs, want)
	sym.Assert(min(uint64(r.ReadSize()), 0xffffff) == min(uint64(v), 0xffffff), "the announced chunk size is not the one in force")
	observeEvents(evs)
}

// Announcements sent with compressed headers, and between the chunks of a message.
//
//verif:property C09
//verif:bounds 2 (thorough: 3) announcements of every value 1..2^32-1 on one chunk stream, the first of format 0 with or without an extended timestamp, the others of formats 0..3, started at chunk size 1..4; messages of 1..6 bytes on another chunk stream around and between them
//verif:shards 8 8
func SetChunkSizeFormats() {
	sel := sym.Choose("sel", 8)
	size := sel%4 + 1
	w := &buf{}
	cur := size
	var want []msg
	data := func(n int) {
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 5}, MessageHeader: chunk.MessageHeader{Timestamp: 9, Length: uint32(n), TypeId: 8, StreamId: 1}}
		m := msg{*h, sym.Bytes("data", n)}
		w.b = append(w.b, wireWhole(h, m.data, cur)...)
		want = append(want, m)
	}
	last := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Timestamp: sym.Uint32("ts"), Length: 4, TypeId: 1, StreamId: sym.Uint32("sid")}}
	last.ExtendedTimestamp.Delta = sym.Uint32("ext")
	if sel/4 == 0 {
		sym.Assume(last.MessageHeader.Timestamp < 0xffffff)
	} else {
		sym.Assume(last.MessageHeader.Timestamp == 0xffffff)
	}
	var v uint32
	k := sym.Param(2, 3)
	for i := 0; i < k; i++ {
		if i > 0 {
			f := byte(sym.Choose("fmt", 4))
			h := *last
			h.BasicHeader.FormatId, h.MessageHeader.FormatId = f, f
			if f <= 2 {
				h.MessageHeader.Timestamp = sym.Uint32("ts")
				sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
				h.MessageHeader.TimestampDelta = f != 0
			}
			if f == 0 {
				h.MessageHeader.StreamId = sym.Uint32("sid")
			}
			last = &h
		}
		v = sym.Uint32("size")
		sym.Assume(v >= 1)
		w.b = append(w.b, wireWhole(last, beBytes(uint64(v), 4), cur)...)
		if cur = 1 << 40; v <= 6 {
			cur = int(sym.Concretize(uint64(v)))
		}
		data(1 + 5*sym.Choose("n", 2))
	}
	r := chunk.NewReader(&src{b: w.b}, size, chunk.NewNormalizer())
	evs := readAll(r, k)
	sym.Cover("read")
	checkEvents(evs, want)
	sym.Assert(min(uint64(r.ReadSize()), 0xffffff) == min(uint64(v), 0xffffff), "the announced chunk size is not the one in force")
	observeEvents(evs)
}

// Messages of every other type leave the chunk size alone, whatever they carry.
//
//verif:property C09
//verif:bounds one message of any type but 1 with 0..6 arbitrary bytes, chunk sizes 1..7 or 128, any chunk stream below 320 and message stream
//verif:shards 7 7
func OtherTypesKeepSize() {
	n := sym.Choose("n", 7)
	size := []int{1, 2, 3, 4, 7, 128}[sym.Choose("size", 6)]
	h := firstHeader(uint32(n))
	sym.Assume(h.BasicHeader.StreamId < 320)
	data := sym.Bytes("data", n)
	r := chunk.NewReader(&src{b: wireWhole(h, data, size)}, size, chunk.NewNormalizer())
	evs := readAll(r, 1)
	sym.Cover("read")
	checkEvents(evs, []msg{{*h, data}})
	sym.Assert(r.ReadSize() == size, "a message of another type changes the chunk size")
	observeEvents(evs)
}

// Both sides of a connection agree on the size after an announcement.
//
//verif:property C09 C07
//verif:bounds writer and reader at chunk size 128, an announcement of 1..8 or any larger value, then a message of 7 bytes; then a second announcement and another message
func Agreement() {
	w := &buf{}
	cw := chunk.NewWriter(w, 128)
	var want []msg
	for i := 0; i < 2; i++ {
		v := sym.Uint32("v")
		sym.Assume(v >= 1 && v <= 0xffffff)
		size := int(v)
		if v <= 8 {
			size = int(sym.Concretize(uint64(v)))
		}
		scs := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: 4, TypeId: 1}}
		sym.Assert(cw.Write(chunk.New(scs, beBytes(uint64(v), 4))) == nil, "writing to a working transport fails")
		cw.SetWriteSize(size)
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 6}, MessageHeader: chunk.MessageHeader{Timestamp: 3, Length: 7, TypeId: 8, StreamId: 1}}
		data := sym.Bytes("data", 7)
		sym.Assert(cw.Write(chunk.New(h, data)) == nil, "writing to a working transport fails")
		want = append(want, msg{*h, data})
	}
	evs := readAll(chunk.NewReader(&src{b: w.b}, 128, chunk.NewNormalizer()), 3)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// judge checks what must hold of a reader's events for any bytes at all.
func judge(evs []event, r chunk.Reader, nbytes int) {
	total := 0
	for _, e := range evs {
		if e.err != nil {
			sym.Cover("error")
			continue
		}
		sym.Cover("message")
		sym.Assert(e.c.Header != nil, "a message is delivered without a header")
		sym.Assert(uint32(len(e.c.Data)) == e.c.Header.MessageHeader.Length, "a delivered message does not have the announced number of bytes")
		sym.Assert(e.c.Header.MessageHeader.TypeId != 1, "a Set Chunk Size message is delivered")
		total += len(e.c.Data)
	}
	sym.Assert(total <= nbytes, "more payload bytes are delivered than were received")
	sym.Assert(r.ReadSize() >= 1, "the peer can make the chunk size zero or negative")
}

// Arbitrary bytes from a peer.
//
//verif:property C10
//verif:bounds every string of 0..7 (thorough: 0..9) bytes, chunk sizes 1, 3 and 128
//verif:shards 24 30
//verif:maxconc 300
func AnyBytes() {
	k := sym.Choose("k", 3*sym.Param(8, 10))
	n, size := k/3, []int{1, 3, 128}[k%3]
	b := sym.Bytes("b", n)
	r := chunk.NewReader(&src{b: b}, size, chunk.NewNormalizer())
	evs := readAll(r, n)
	sym.Cover("ended")
	judge(evs, r, n)
	observeEvents(evs)
}

// Arbitrary bytes after a message has begun.
//
//verif:property C10
//verif:bounds a format 0 or 1 header with arbitrary fields on chunk stream 4 announcing 0..7 bytes, then every string of 0..6 (thorough: 0..8) bytes; chunk sizes 1, 2, 3 and 128
//verif:shards 24 24
//verif:maxconc 300
func AnyBytesAfterHeader() {
	k := sym.Choose("k", sym.Param(7, 9)*8)
	n := k / 8
	size := []int{1, 2, 3, 128}[k/2%4]
	f := byte(k % 2)
	head := sym.Bytes("head", messageLen[f])
	sym.Assume(sym.And(head[3] == 0, head[4] == 0, head[5] < 8, sym.Not(sym.And(head[0] == 255, head[1] == 255, head[2] == 255))))
	b := cat([]byte{f<<6 | 4}, head, sym.Bytes("b", n))
	r := chunk.NewReader(&src{b: b}, size, chunk.NewNormalizer())
	evs := readAll(r, len(b))
	sym.Cover("ended")
	judge(evs, r, n)
	observeEvents(evs)
}

// Set Chunk Size messages with any body.
//
//verif:property C10
//verif:bounds two messages of type 1 with 0..5 arbitrary bytes each (announcing 0 or more than 5, if 4 bytes long), then one of 3 bytes; initial chunk size 128
//verif:shards 6 6
//verif:maxconc 300
func AnySetChunkSize() {
	var b []byte
	for i := 0; i < 2; i++ {
		n := sym.Choose("n", 6)
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(n), TypeId: 1}}
		b = append(b, wireHeader(h)...)
		body := sym.Bytes("body", n)
		if n == 4 {
			// otherwise the rest is not cut where this test cuts it
			sym.Assume(sym.Or(be(body) == 0, be(body) > 5))
		}
		b = append(b, body...)
	}
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 4}, MessageHeader: chunk.MessageHeader{Length: 3, TypeId: 8}}
	b = append(b, wireHeader(h)...)
	b = append(b, sym.Bytes("data", 3)...)
	r := chunk.NewReader(&src{b: b}, 128, chunk.NewNormalizer())
	evs := readAll(r, len(b))
	sym.Cover("ended")
	judge(evs, r, len(b))
	observeEvents(evs)
}

// A stream cut off anywhere, or failing there, yields an error and never part of a message.
//
//verif:property C10
//verif:bounds two messages of 1..4 bytes on one or two chunk streams at chunk size 1..3, cut at every byte with one of the kinds of errors
//verif:shards 3 3
func CutAnywhere() {
	size := sym.Choose("size", 3) + 1
	var b []byte
	var want []msg
	var at []int
	for i := 0; i < 2; i++ {
		n := 1 + sym.Choose("n", 4)
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: uint32(4 + 300*i)}, MessageHeader: chunk.MessageHeader{Timestamp: sym.Uint32("ts"), Length: uint32(n), TypeId: 8, StreamId: sym.Uint32("sid")}}
		sym.Assume(h.MessageHeader.Timestamp <= 0xffffff)
		m := msg{*h, sym.Bytes("data", n)}
		want = append(want, m)
		b = append(b, wireWhole(h, m.data, size)...)
		at = append(at, len(b))
	}
	cut := sym.Choose("cut", len(b)+1)
	k := 0
	for k < 2 && at[k] <= cut {
		k++
	}
	s := &src{b: b[:cut], end: troubleOf(cut)}
	evs := readUntil(chunk.NewReader(s, size, chunk.NewNormalizer()), s.end, 2)
	sym.Cover("ended")
	checkEvents(evs, want[:k])
	sym.Assert(s.pos <= cut, "more bytes are taken than there are")
	observeEvents(evs)
}

// Announcements that are not well-formed, around and inside a message.
//
//verif:property C09
//verif:bounds an announcement of 1..3, 5, 6 or 9 arbitrary bytes or of the value 0, started at chunk size 1..4, before, between the chunks of or after a message of 5 bytes on another chunk stream, then a well-formed one of value 1..4 and a message of 6 bytes
//verif:shards 4 4
func MalformedSetChunkSize() {
	size := sym.Choose("size", 4) + 1
	data := func(n int) msg {
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 5}, MessageHeader: chunk.MessageHeader{Timestamp: 9, Length: uint32(n), TypeId: 8, StreamId: 1}}
		return msg{*h, sym.Bytes("data", n)}
	}
	announce := func(body []byte) []byte {
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(len(body)), TypeId: 1}}
		return wireWhole(h, body, size)
	}
	bad := make([]byte, 4)
	if k := sym.Choose("len", 7); k < 6 {
		bad = sym.Bytes("bad", []int{1, 2, 3, 5, 6, 9}[k])
	}
	m1, m2 := data(5), data(6)
	var first [][]byte
	for i := 0; i < len(m1.data); i += size {
		c := wireCont(&m1.h)
		if i == 0 {
			c = wireHeader(&m1.h)
		}
		first = append(first, append(c, m1.data[i:min(i+size, len(m1.data))]...))
	}
	at := sym.Choose("at", len(first)+1)
	var b []byte
	for i := 0; i <= len(first); i++ {
		if i == at {
			b = append(b, announce(bad)...)
		}
		if i < len(first) {
			b = append(b, first[i]...)
		}
	}
	next := sym.Choose("next", 4) + 1
	b = append(b, announce(beBytes(uint64(next), 4))...)
	b = append(b, wireWhole(&m2.h, m2.data, next)...)
	r := chunk.NewReader(&src{b: b}, size, chunk.NewNormalizer())
	evs := readAll(r, len(b))
	sym.Cover("ended")
	sym.Assert(len(evs) == 3, "a malformed announcement is delivered or not reported, or a message is lost")
	k := 1
	if at < len(first) {
		k = 0
	}
	sym.Assert(evs[k].err != nil, "a malformed announcement is not reported where it ends")
	checkEvents(append(append([]event{}, evs[:k]...), evs[k+1:]...), []msg{m1, m2})
	sym.Assert(r.ReadSize() == next, "a malformed announcement leaves another chunk size")
	observeEvents(evs)
}

// A message of any announced length, of which only the first bytes arrive.
//
//verif:property C10
//verif:bounds formats 0 and 1 with arbitrary fields and every 24-bit length; 0..7 payload bytes (thorough: 0..20) in chunks of 1..4 bytes, then the end of the stream
//verif:shards 8 8
func AnyLength() {
	k := sym.Choose("k", 8)
	size, f := k/2+1, byte(k%2)
	m := sym.Choose("m", sym.Param(8, 21))
	head := sym.Bytes("head", messageLen[f])
	length := be(head[3:6])
	sym.Assume(sym.And(length >= uint64(m), head[6] != 1, sym.Not(sym.And(head[0] == 255, head[1] == 255, head[2] == 255))))
	data := sym.Bytes("data", m)
	b := cat([]byte{f<<6 | 4}, head)
	for i, x := range data {
		if i > 0 && i%size == 0 {
			b = append(b, 3<<6|4)
		}
		b = append(b, x)
	}
	r := chunk.NewReader(&src{b: b}, size, chunk.NewNormalizer())
	evs := readAll(r, len(b))
	if length == uint64(m) {
		sym.Assert(len(evs) == 1 && evs[0].err == nil, "a complete message is not delivered")
		sym.Assert(sym.EqBytes(evs[0].c.Data, data), "a message arrives with other payload bytes")
		sym.Cover("complete")
	} else {
		sym.Assert(len(evs) == 0, "a message is delivered or a failure reported before its last bytes arrived")
		sym.Cover("missing")
	}
	judge(evs, r, m)
	observeEvents(evs)
}
