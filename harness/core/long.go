package core

import (
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// Long histories: what a limit, a counter or a table of fixed size would break.

// longIds are chunk stream ids of every form, 63 left out.
func longIds(n int) []uint32 {
	var ids []uint32
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			ids = append(ids, uint32(2+i/4%61))
		case 1:
			ids = append(ids, uint32(64+i/4))
		case 2:
			ids = append(ids, uint32(320+i/4*7))
		default:
			ids = append(ids, uint32(65599-i/4))
		}
	}
	return ids
}

// Many chunk streams, each with a message under way.
//
//verif:property C08
//verif:bounds 70 (thorough: 240) chunk streams with ids of every form, each in the middle of a message of 2 or 3 arbitrary bytes at chunk size 1 while all the others are, in two orders; then a second message of format 1, 2 or 3 on each
//verif:steps 60000000
//verif:shards 6 6
func LongInterleave() {
	x := sym.Choose("x", 6)
	ids := longIds(sym.Param(70, 240))
	ss := make([]sender, len(ids))
	total := 0
	for i, id := range ids {
		n := 2 + i%2
		h := chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{Timestamp: uint32(i), Length: uint32(n), TypeId: byte(8 + i%9), StreamId: uint32(i * 77)}}
		if i < 4 {
			h.MessageHeader.StreamId = sym.Uint32("sid")
		}
		h2 := h
		f := byte(1 + x%3)
		h2.BasicHeader.FormatId, h2.MessageHeader.FormatId = f, f
		if f <= 2 {
			h2.MessageHeader.Timestamp, h2.MessageHeader.TimestampDelta = uint32(1000+i), true
		}
		if f == 1 {
			h2.MessageHeader.TypeId = byte(30 + i%9)
		}
		ss[i].msgs = []msg{{h, sym.Bytes("data", n)}, {h2, sym.Bytes("data", n)}}
		total += 2
	}
	w := &buf{}
	var want []msg
	for left := total; left > 0; {
		for j := range ss {
			i := j
			if x >= 3 {
				i = len(ss) - 1 - j
			}
			if !ss[i].pending() {
				continue
			}
			if m := ss[i].emit(w, 1); m != nil {
				want = append(want, *m)
				left--
			}
		}
	}
	evs := readAll(chunk.NewReader(&src{b: w.b}, 1, chunk.NewNormalizer()), total)
	sym.Cover("read")
	checkEvents(evs, want)
}

// Many messages through a writer and a reader.
//
//verif:property C07 C05 C06
//verif:bounds 300 (thorough: 2000) messages of 0..4 arbitrary bytes on 1, 3 or 40 chunk streams, of formats 0..3 in turn, at chunk sizes 2 and 128
//verif:steps 200000000
//verif:shards 6 6
func LongWriteRead() {
	x := sym.Choose("x", 6)
	size := []int{2, 128}[x%2]
	ids := longIds([]int{1, 3, 40}[x/2])
	last := make([]*chunk.Header, len(ids))
	w := &buf{}
	cw := chunk.NewWriter(w, size)
	var want []msg
	k := sym.Param(300, 2000)
	var wire []byte
	for i := 0; i < k; i++ {
		s := i % len(ids)
		n := i % 5
		var h chunk.Header
		if last[s] == nil {
			h = chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: ids[s]}, MessageHeader: chunk.MessageHeader{Timestamp: sym.Uint32("ts"), Length: uint32(n), TypeId: byte(20 + s), StreamId: sym.Uint32("sid")}}
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
		} else {
			h = *last[s]
			f := byte(i / len(ids) % 4)
			h.BasicHeader.FormatId, h.MessageHeader.FormatId = f, f
			if f <= 2 {
				h.MessageHeader.Timestamp, h.MessageHeader.TimestampDelta = uint32(i), f != 0
			}
			if f <= 1 {
				h.MessageHeader.Length, h.MessageHeader.TypeId = uint32(n), byte(20+i%200)
			}
			if f == 0 {
				h.MessageHeader.StreamId = uint32(i)
			}
			n = int(h.MessageHeader.Length)
		}
		last[s] = &h
		m := msg{h, sym.Bytes("data", n)}
		want = append(want, m)
		hc := h
		sym.Assert(cw.Write(chunk.New(&hc, append([]byte(nil), m.data...))) == nil, "writing to a working transport fails")
		sym.Assert(w.calls == i+1, "a message is not handed to the transport in exactly one write")
		wire = append(wire, wireWhole(&h, m.data, size)...)
		sym.Assert(len(w.b) == len(wire), "a message occupies the wrong number of bytes")
	}
	sym.Assert(eqBytes(w.b, wire), "a message is not sent as header, pieces of the write size and continuation headers")
	evs := readAll(chunk.NewReader(&src{b: w.b}, size, chunk.NewNormalizer()), k)
	sym.Cover("read")
	checkEvents(evs, want)
}

// Many changes of the chunk size.
//
//verif:property C09
//verif:bounds 60 (thorough: 400) announcements of sizes 1..200, each followed by a message of 9 arbitrary bytes
//verif:steps 60000000
func LongSizes() {
	var b []byte
	var want []msg
	size := 128
	k := sym.Param(60, 400)
	for i := 0; i < k; i++ {
		v := []int{1, 3, 200, 4, 9, 2, 7, 64, 5, 128}[i%10]
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: 4, TypeId: 1, Timestamp: uint32(i)}}
		b = append(b, wireWhole(h, beBytes(uint64(v), 4), size)...)
		size = v
		h = &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 6}, MessageHeader: chunk.MessageHeader{Length: 9, TypeId: 8, Timestamp: uint32(i), StreamId: 1}}
		m := msg{*h, sym.Bytes("data", 9)}
		b = append(b, wireWhole(h, m.data, size)...)
		want = append(want, m)
	}
	r := chunk.NewReader(&src{b: b}, 128, chunk.NewNormalizer())
	evs := readAll(r, k)
	sym.Cover("read")
	checkEvents(evs, want)
	sym.Assert(r.ReadSize() == size, "the announced chunk size is not the one in force")
}

// Many errors from bad bytes between good messages.
//
//verif:property C10
//verif:bounds 40 (thorough: 300) empty or one byte Set Chunk Size messages, each followed by a message of 2 bytes
//verif:steps 60000000
func LongErrors() {
	var b []byte
	k := sym.Param(40, 300)
	for i := 0; i < k; i++ {
		n := i % 2
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(n), TypeId: 1}}
		b = append(b, wireWhole(h, sym.Bytes("body", n), 128)...)
		h = &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 6}, MessageHeader: chunk.MessageHeader{Length: 2, TypeId: 8}}
		b = append(b, wireWhole(h, sym.Bytes("data", 2), 128)...)
	}
	r := chunk.NewReader(&src{b: b}, 128, chunk.NewNormalizer())
	evs := readAll(r, len(b))
	sym.Cover("ended")
	judge(evs, r, len(b))
}

// Headers of many chunk streams, normalised in rounds.
//
//verif:property C11
//verif:bounds 300 (thorough: 2000) chunk streams with ids of every form, 65 (thorough: 400) of them or fewer; three rounds of formats 0, then 1..3, then 3
//verif:steps 60000000
//verif:shards 3 3
func LongNormalize() {
	x := sym.Choose("x", 3)
	n := chunk.NewNormalizer()
	ids := longIds(sym.Param(300, 2000))
	if x == 1 {
		ids = ids[:65]
	}
	last := make([]*chunk.Header, len(ids))
	for round := 0; round < 3; round++ {
		for i, id := range ids {
			if x == 2 && i >= 244 {
				break // the one byte ids repeat from here on
			}
			f := byte(0)
			if round > 0 {
				f = byte(1 + (i+round)%3)
			}
			h := rawHeader(f, id)
			var prev *chunk.Header
			for j := range ids {
				if ids[j] == id {
					prev = last[j]
					break
				}
			}
			want := completed(h, prev)
			got := n.Normalize(h)
			if f == 3 {
				want.ExtendedTimestamp = got.ExtendedTimestamp
			}
			sym.Assert(sameHeader(got, &want), "a header is not completed from the previous one on its chunk stream")
			for j := range ids {
				if ids[j] == id {
					last[j] = &want
					break
				}
			}
		}
	}
	sym.Cover("history")
}

// Many parts.
//
//verif:property C12
//verif:bounds 300 (thorough: 3000) parts of 0..3 arbitrary bytes, appended or read, with a build now and then
//verif:steps 60000000
//verif:shards 2 2
func LongBuild() {
	every := []int{1 << 30, 37}[sym.Choose("x", 2)]
	k := sym.Param(300, 3000)
	length := 0
	for i := 0; i < k; i++ {
		length += i % 4
	}
	h := &chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(length)}}
	b := chunk.NewBuilder(h)
	var all []byte
	var built []*chunk.Chunk
	var lens []int
	for i := 0; i < k; i++ {
		d := sym.Bytes("d", i%4)
		var n int
		var err error
		if i%3 == 0 {
			n, err = b.Read(&src{b: append([]byte(nil), d...)}, len(d))
		} else {
			n, err = b.Append(append([]byte(nil), d...))
		}
		sym.Assert(err == nil && n == len(d), "adding bytes that fit is reported as an error")
		all = append(all, d...)
		sym.Assert(b.BytesLeft() == length-len(all), "the count of missing bytes is wrong")
		if i%every == every-1 {
			built = append(built, b.Build())
			lens = append(lens, len(all))
		}
	}
	built = append(built, b.Build())
	lens = append(lens, len(all))
	sym.Cover("built")
	for i, c := range built {
		sym.Assert(c.Header == h && len(c.Data) == lens[i], "a built message has more or fewer bytes than were added")
		sym.Assert(eqBytes(c.Data, all[:lens[i]]), "a built message is not the concatenation of its parts")
	}
}

// Many streams, many messages.
//
//verif:property C13
//verif:bounds 70 streams, requested before the parser runs, while it does, or each just before its first message; 300 (thorough: 2000) messages on them and errors
//verif:steps 60000000
//verif:shards 3 3
func LongRoute() {
	how := sym.Choose("how", 3)
	ids := longIds(70)
	k := sym.Param(300, 2000)
	rd := newScripted()
	for i := 0; i < k; i++ {
		if i%11 == 10 {
			rd.script = append(rd.script, item{err: troubleOf(i / 11)})
		} else {
			rd.script = append(rd.script, item{c: mkChunk(ids[i*13%70], byte(i))})
		}
	}
	p := chunk.NewParser(rd)
	ss := map[uint32]chunk.Stream{}
	get := func(id uint32) {
		if ss[id] == nil {
			s, err := p.Stream(id)
			sym.Assert(err == nil && s != nil, "requesting a stream fails")
			ss[id] = s
		}
	}
	all := func() {
		for _, id := range ids {
			get(id)
		}
	}
	if how == 0 {
		all()
	}
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	if how == 1 {
		sym.Quiesce()
		all()
	}
	for _, it := range rd.script {
		if it.err != nil {
			err := <-p.Errs()
			sym.Assert(err == it.err, "the error channel yields something other than the next error")
			continue
		}
		get(it.c.StreamId())
		select {
		case c := <-ss[it.c.StreamId()].In():
			sym.Assert(c == it.c, "a stream receives something other than the next message")
		case <-p.Errs():
			sym.Fail("an error is reported for no reason")
		}
	}
	sym.Cover("routed")
	p.Close()
	<-done
	for _, id := range ids {
		if s := ss[id]; s != nil {
			c, ok := <-s.In()
			sym.Assert(c == nil && !ok, "a stream yields a message more than once, or does not end")
		}
	}
	_, ok := <-p.Errs()
	sym.Assert(!ok, "the error channel does not end")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines stay behind after the parser was closed")
}

// Many sources combined, many messages.
//
//verif:property C14
//verif:bounds 40 sources combined at once or one by one, 200 (thorough: 1000) messages on them in turn or one source after the other, each source ended after its last message
//verif:steps 60000000
//verif:shards 4 4
func LongMulti() {
	x := sym.Choose("x", 4)
	const ns = 40
	k := sym.Param(200, 1000)
	m := chunk.NewMultiStream()
	var raw []source
	var all []chunk.Stream
	for i := 0; i < ns; i++ {
		s := source{make(chan *chunk.Chunk)}
		raw, all = append(raw, s), append(all, s)
		if x%2 == 1 {
			m.Append(s)
		}
	}
	if x%2 == 0 {
		m.Append(all...)
	}
	ended := make(chan struct{})
	go func() { m.AwaitClose(); close(ended) }()
	for i := 0; i < k; i++ {
		s := i % ns
		if x >= 2 {
			s = i * ns / k
		}
		c := mkChunk(uint32(s), byte(i))
		select {
		case raw[s].ch <- c:
		case <-ended:
			sym.Fail("a combined stream ends while a source is open")
		}
		got, ok := <-m.In()
		sym.Assert(ok && got == c, "a combined stream yields something other than the only message sent")
		if x >= 2 && (i+1)*ns/k > s || x < 2 && i >= k-ns {
			close(raw[s].ch)
		}
	}
	_, ok := <-m.In()
	sym.Assert(!ok, "a combined stream yields too much")
	<-ended
	sym.Cover("ended")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines stay behind after a combined stream ended")
}

// A long life of a control stream.
//
//verif:property C18 C17
//verif:bounds 300 (thorough: 2000) events: messages arriving, chunks that do not decode, messages sent, messages that do not encode, failing writes, in turn
//verif:steps 60000000
func LongControl() {
	in := source{make(chan *chunk.Chunk)}
	w := &limited{left: 1 << 30, err: errSink}
	s := control.NewStream(in, chunk.NewWriter(w, 128), control.NewParser(), control.NewChunker())
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	var wire []byte
	k := sym.Param(300, 2000)
	for i := 0; i < k; i++ {
		v := sym.Uint32("v")
		kind := 1 + i/8%5
		switch op := i % 8; op {
		case 0, 3, 5:
			c, body := anyControl(kind, i%5)
			in.ch <- chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(len(body)), TypeId: byte(kind + 1)}}, body)
			select {
			case got := <-s.In():
				sym.Assert(got != nil && sameControl(c, got), "a chunk is relayed as another message")
			case <-s.Errs():
				sym.Fail("a decodable chunk is reported as an error")
			}
		case 1:
			in.ch <- chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: 1, TypeId: byte(kind + 1)}}, []byte{1})
			select {
			case <-s.In():
				sym.Fail("an undecodable chunk yields a message")
			case err := <-s.Errs():
				sym.Assert(err != nil, "an undecodable chunk is not reported")
			}
		case 2, 6:
			c, body := anyControl(kind, i%5)
			s.Out() <- c
			sym.Quiesce()
			wire = append(wire, wireControl(kind, body)...)
		case 4:
			s.Out() <- badControl{troubleOf(i / 8)}
			sym.Assert(<-s.Errs() == troubleOf(i/8), "a failure to encode is not reported")
		case 7:
			w.left = 0
			w.err = troubleOf(i / 8)
			s.Out() <- &control.WindowAckSize{WindowAckSize: v}
			sym.Assert(<-s.Errs() == w.err, "a failure to write is not reported")
			w.left = 1 << 30
		}
		sym.Assert(len(w.b) == len(wire), "something other than the messages sent is written")
	}
	sym.Assert(eqBytes(w.b, wire), "a message sent is written wrongly")
	s.Close()
	<-done
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines outlive the stream")
}

var _ = io.EOF
