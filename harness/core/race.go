package core

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// The chunk size of a running reader may be read and changed.
//
//verif:property C28
//verif:bounds a reader receiving one message of 0 or 1 bytes, its size read once and set once or twice meanwhile; every schedule
//verif:mode full race noobs
func RaceReadSize() {
	n := sym.Choose("n", 2)
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: 0, StreamId: 4}, MessageHeader: chunk.MessageHeader{Length: uint32(n), TypeId: 8}}
	r := chunk.NewReader(&src{b: wireWhole(h, sym.Bytes("d", n), 4)}, 4, chunk.NoopNormalizer)
	done := make(chan struct{})
	go func() { r.Recv(); close(done) }()
	twice := sym.Choose("twice", 2) == 1
	set := make(chan struct{})
	go func() {
		r.SetReadSize(5)
		if twice {
			r.SetReadSize(6)
		}
		close(set)
	}()
	s := r.ReadSize()
	sym.Assert(s == 4 || s == 5 || s == 6 && twice, "the reader reports a size nobody set")
	c := <-r.Chunks()
	sym.Assert(c != nil && len(c.Data) == n, "a message is lost while the size changes")
	<-set
	want := 5
	if twice {
		want = 6
	}
	sym.Assert(r.ReadSize() == want, "a change of the size is lost")
	r.Close()
	select {
	case <-r.Errs():
	case <-done:
	}
	<-done
	sym.Cover("done")
}

// Each chunk is read at one size.
//
//verif:property C28
//verif:bounds a reader receiving a message of 2 bytes, which is one chunk or two depending on the size in force, while that is changed from 1 to 2 or 3 and maybe to 1 again; every schedule
//verif:mode full race noobs
//verif:shards 4 4
func RaceOneSize() {
	x := sym.Choose("sizes", 4)
	to, back := 2+x&1, x>>1 == 1
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: 0, StreamId: 4}, MessageHeader: chunk.MessageHeader{Length: 2, TypeId: 8}}
	wire := wireWhole(h, []byte{7, 9}, 1)
	r := chunk.NewReader(&src{b: wire}, 1, chunk.NewNormalizer())
	done := make(chan struct{})
	go func() { r.Recv(); close(done) }()
	set := make(chan struct{})
	go func() {
		r.SetReadSize(to)
		if back {
			r.SetReadSize(1)
		}
		close(set)
	}()
	select {
	case c := <-r.Chunks():
		// 0xc4 begins the second chunk
		sym.Assert(len(c.Data) == 2 && c.Data[0] == 7 && (c.Data[1] == 9 || c.Data[1] == 0xc4), "a chunk is read at a size nobody set")
	case <-r.Errs():
		sym.Fail("a chunk is read at a size nobody set, or at two sizes")
	}
	<-set
	r.Close()
	select {
	case <-r.Errs():
	case <-done:
	}
	<-done
	sym.Cover("done")
}

// A size announced by the peer and one set locally do not get mixed up.
//
//verif:property C28
//verif:bounds a reader receiving a Set Chunk Size of 0x102 while its size is set to 0x304; every schedule
//verif:mode full race noobs
func RaceAnnounced() {
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: 0, StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: 4, TypeId: 1}}
	r := chunk.NewReader(&src{b: wireWhole(h, beBytes(0x102, 4), 128)}, 128, chunk.NoopNormalizer)
	done := make(chan struct{})
	go func() { r.Recv(); close(done) }()
	r.SetReadSize(0x304)
	s := r.ReadSize()
	sym.Assert(s == 0x304 || s == 0x102, "the reader reports a size nobody set")
	<-r.Errs()
	s = r.ReadSize()
	sym.Assert(s == 0x304 || s == 0x102, "the reader reports a size nobody set")
	r.Close()
	<-done
	sym.Cover("done")
}

// Two goroutines write and change the size.
//
//verif:property C28
//verif:bounds one message of 3 bytes written while the size is set by one goroutine and read and set by another; every schedule
//verif:mode full race noobs
func RaceWriteSize() {
	w := &buf{}
	cw := chunk.NewWriter(w, 1)
	a, b := make(chan struct{}), make(chan struct{})
	go func() { cw.SetWriteSize(2); close(a) }()
	go func() {
		s := cw.WriteSize()
		sym.Assert(s == 1 || s == 2, "the writer reports a size nobody set")
		close(b)
	}()
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 4}, MessageHeader: chunk.MessageHeader{Length: 3, TypeId: 8}}
	d := sym.Bytes("d", 3)
	sym.Assert(cw.Write(chunk.New(h, d)) == nil, "writing fails")
	<-a
	<-b
	sym.Cover("done")
	sym.Assert(cw.WriteSize() == 2, "a change of the size is lost")
	sym.Assert(sym.Or(eqBytes(w.b, wireWhole(h, d, 1)), eqBytes(w.b, wireWhole(h, d, 2))), "a message is split at a size nobody set")
}

// Two goroutines share a normaliser.
//
//verif:property C28
//verif:bounds two goroutines normalising two headers each on their own chunk streams; every schedule
//verif:mode full race noobs
func RaceNormalizer() {
	n := chunk.NewNormalizer()
	run := func(id uint32, f byte) chunk.Header {
		h0 := rawHeader(0, id)
		n.Normalize(h0)
		h1 := rawHeader(f, id)
		want := completed(h1, h0)
		got := n.Normalize(h1)
		sym.Assert(sameMessageHeader(&got.MessageHeader, &want.MessageHeader), "a header is completed from the wrong predecessor")
		return *got
	}
	f := byte(1 + sym.Choose("fmt", 3))
	done := make(chan struct{})
	go func() { run(4, f); close(done) }()
	run(70, 3)
	<-done
	sym.Cover("done")
}

// Two goroutines add to a builder.
//
//verif:property C28
//verif:bounds two goroutines appending one part each, one of them also adjusting the count or building; every schedule
//verif:mode full race noobs
func RaceBuilder() {
	b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: 10}})
	x, y := sym.Bytes("x", 2), sym.Bytes("y", 1)
	what := sym.Choose("what", 3)
	done := make(chan struct{})
	go func() {
		_, err := b.Append(x)
		sym.Assert(err == nil, "adding bytes that fit fails")
		close(done)
	}()
	_, err := b.Append(y)
	sym.Assert(err == nil, "adding bytes that fit fails")
	left := 7
	switch what {
	case 0:
		b.AddLeft(-4)
		left = 3
	case 1:
		c := b.Build()
		sym.Assert(sym.Or(eqBytes(c.Data, y), eqBytes(c.Data, cat(x, y)), eqBytes(c.Data, cat(y, x))), "building meanwhile yields something that was never there")
	case 2:
		l := b.BytesLeft()
		sym.Assert(l == 9 || l == 7, "the count is one that was never right")
	}
	<-done
	sym.Cover("done")
	sym.Assert(b.BytesLeft() == left, "an update of the count is lost")
	d := b.Build().Data
	sym.Assert(sym.Or(eqBytes(d, cat(x, y)), eqBytes(d, cat(y, x))), "a part is lost")
}

// Two goroutines read into a builder.
//
//verif:property C28
//verif:bounds two goroutines reading one part each from their own sources; every schedule
//verif:mode full race noobs
func RaceBuilderRead() {
	b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: 3}})
	x, y := sym.Bytes("x", 2), sym.Bytes("y", 1)
	done := make(chan struct{})
	go func() { b.Read(&src{b: x}, 2); close(done) }()
	b.Read(&src{b: y}, 1)
	<-done
	sym.Cover("done")
	sym.Assert(b.BytesLeft() == 0, "an update of the count is lost")
	d := b.Build().Data
	sym.Assert(sym.Or(eqBytes(d, cat(x, y)), eqBytes(d, cat(y, x))), "a part is lost")
}

// Streams may be requested from several goroutines, before and while the parser runs.
//
//verif:property C28 C13
//verif:bounds two goroutines requesting one or two ids while the parser delivers one message; every schedule
//verif:mode full race noobs
func RaceStreams() {
	c := mkChunk(4, 1)
	rd := newScripted(item{c: c})
	p := chunk.NewParser(rd)
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	other := make(chan chunk.Stream, 1)
	two := sym.Choose("two", 2) == 1
	go func() {
		if two {
			p.Stream(6, 7)
		}
		s, _ := p.Stream(4)
		other <- s
	}()
	s, err := p.Stream(4)
	sym.Assert(err == nil && s != nil, "requesting a stream fails")
	s5, _ := p.Stream(5)
	sym.Assert(<-other == s, "requests for one id yield different streams")
	sym.Assert(s5 != s, "different ids share a stream")
	sym.Assert(<-s.In() == c, "a message is lost")
	p.Close()
	<-done
	sym.Cover("done")
}

// Requests for several ids at once from two goroutines take effect one after the other.
//
//verif:property C13 C28
//verif:bounds one goroutine requesting the ids 4 and 5 together while another requests 5, 6, 5 and 6, or 4 and 5; afterwards a message on each id that was given out; every schedule
//verif:mode full race noobs
//verif:shards 4 4
func RaceCombined() {
	idsA := []uint32{4, 5}
	idsB := [][]uint32{{5}, {6}, {5, 6}, {5, 4}}[sym.Choose("b", 4)]
	rd := newScripted(item{c: mkChunk(4, 0)}, item{c: mkChunk(5, 1)})
	p := chunk.NewParser(rd)
	type answer struct {
		s   chunk.Stream
		err error
	}
	other := make(chan answer, 1)
	go func() {
		s, err := p.Stream(idsB...)
		other <- answer{s, err}
	}()
	a, errA := p.Stream(idsA...)
	b := <-other
	sym.Assert(b.err == nil || len(idsB) > 1, "requesting a stream fails")
	overlap := idsB[0] != 6
	sym.Assert(errA == nil || overlap, "a combined stream is refused although its ids are free")
	if overlap && len(idsB) > 1 {
		sym.Assert((errA == nil) != (b.err == nil), "two combined streams share an id, or neither is given out")
	}
	if errA != nil && idsB[0] == 5 && (len(idsB) == 1 || idsB[1] == 6) {
		_, err := p.Stream(4, 9)
		sym.Assert(err == nil, "a refused request registers an id")
	}
	if b.err != nil && idsB[1] == 6 {
		_, err := p.Stream(6, 9)
		sym.Assert(err == nil, "a refused request registers an id")
	}
	if errA == nil {
		done := make(chan struct{})
		go func() { p.Recv(); close(done) }()
		var inB <-chan *chunk.Chunk
		if len(idsB) == 1 && overlap {
			inB = b.s.In()
		}
		var seen [6]bool
		for i := 0; i < 2; i++ {
			var c *chunk.Chunk
			select {
			case c = <-a.In():
				sym.Assert(c != nil, "a combined stream ends too soon")
			case c = <-inB:
				sym.Assert(c != nil && c.StreamId() == 5, "a stream yields a message of another id")
			}
			sym.Assert(!seen[c.StreamId()], "a message is delivered twice")
			seen[c.StreamId()] = true
		}
		p.Close()
		<-done
		_, ok := <-a.In()
		sym.Assert(!ok, "a combined stream yields too much, or does not end")
		sym.Cover("delivered")
	}
	sym.Cover("done")
}
