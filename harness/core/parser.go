package core

import (
	"errors"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// item is one thing a scripted reader does.
type item struct {
	c   *chunk.Chunk
	err error
}

// scripted is a chunk.Reader that delivers a script and then waits to be closed.
type scripted struct {
	script []item
	chunks chan *chunk.Chunk
	errs   chan error
	closed chan struct{}
	ran    int
}

func newScripted(script ...item) *scripted {
	return &scripted{script: script, chunks: make(chan *chunk.Chunk), errs: make(chan error), closed: make(chan struct{})}
}

func (s *scripted) Recv() {
	s.ran++
	for _, it := range s.script {
		if it.c != nil {
			select {
			case s.chunks <- it.c:
			case <-s.closed:
				return
			}
		} else {
			select {
			case s.errs <- it.err:
			case <-s.closed:
				return
			}
		}
	}
	<-s.closed
}

func (s *scripted) ReadSize() int               { return 128 }
func (s *scripted) SetReadSize(int)             {}
func (s *scripted) Chunks() <-chan *chunk.Chunk { return s.chunks }
func (s *scripted) Errs() <-chan error          { return s.errs }
func (s *scripted) Close() {
	select {
	case <-s.closed:
	default:
		close(s.closed)
	}
}

func mkChunk(id uint32, tag byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{TypeId: tag, Length: 1}}, []byte{tag})
}

// anyChunk is a message of which only the chunk stream id is given.
func anyChunk(id uint32, n int) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: sym.Byte("format"), StreamId: id},
		MessageHeader:     chunk.MessageHeader{FormatId: sym.Byte("format"), Timestamp: sym.Uint32("ts"), TimestampDelta: sym.Bool("delta"), Length: sym.Uint32("length"), TypeId: sym.Byte("tag"), StreamId: sym.Uint32("sid")},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: sym.Uint32("ext")},
	}, sym.Bytes("data", n))
}

var itemErrs = [4]error{errors.New("e0"), errors.New("e1"), errors.New("e2"), errors.New("e3")}

// Messages and errors go to their own streams, once and in order.
//
//verif:property C13
//verif:bounds every script of 3 (thorough: 4) arbitrary messages of 0 or 1 payload bytes on two arbitrary distinct chunk streams and errors, the same again, io.EOF and io.ErrUnexpectedEOF included; streams requested before the parser starts
//verif:shards 6 6
func ParserRoutes() {
	sel := sym.Choose("sel", 6)
	errs := [][]error{{itemErrs[0], io.EOF}, {io.ErrUnexpectedEOF, itemErrs[1]}, {itemErrs[2], itemErrs[2]}}[sel/2]
	k := sym.Param(3, 4)
	a, b := sym.Uint32("a"), sym.Uint32("b")
	sym.Assume(a != b)
	var script []item
	for i := 0; i < k; i++ {
		switch sym.Choose("kind", 3) {
		case 0:
			script = append(script, item{c: anyChunk(a, sel%2)})
		case 1:
			script = append(script, item{c: anyChunk(b, sel%2)})
		default:
			script = append(script, item{err: errs[i%2]})
		}
	}
	rd := newScripted(script...)
	p := chunk.NewParser(rd)
	sa, e1 := p.Stream(a)
	sb, e2 := p.Stream(b)
	sym.Assert(e1 == nil && e2 == nil && sa != nil && sb != nil, "requesting a stream fails")
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	routeAll(p, script, a, b, sa, sb, done, rd)
}

// routeAll takes everything from a running parser and compares it with the script.
func routeAll(p *chunk.Parser, script []item, a, b uint32, sa, sb chunk.Stream, done chan struct{}, rd *scripted) {
	for _, it := range script {
		select {
		case c := <-sa.In():
			sym.Assert(it.c != nil && c == it.c, "a stream receives something other than the next message")
			sym.Assert(it.c.Header.BasicHeader.StreamId == a, "a message reaches the stream of another chunk stream id")
		case c := <-sb.In():
			sym.Assert(it.c != nil && c == it.c, "a stream receives something other than the next message")
			sym.Assert(it.c.Header.BasicHeader.StreamId == b, "a message reaches the stream of another chunk stream id")
		case err := <-p.Errs():
			sym.Assert(it.err != nil && err == it.err, "the error channel yields something other than the next error")
		}
	}
	sym.Cover("routed")
	p.Close()
	<-done
	for _, s := range []chunk.Stream{sa, sb} {
		c, ok := <-s.In()
		sym.Assert(c == nil && !ok, "a stream yields a message more than once, or does not end")
	}
	e, ok := <-p.Errs()
	sym.Assert(e == nil && !ok, "an error is reported more than once, or the error channel does not end")
	sym.Assert(rd.ran == 1, "the reader is started other than once")
}

// The same under every schedule, with one stream requested while the parser runs.
//
//verif:property C13
//verif:bounds scripts of 2 (thorough: 3) messages and errors on two chunk streams, the second stream requested while the parser runs; every schedule
//verif:mode full race noobs
func ParserRoutesAnySchedule() {
	k := sym.Param(2, 3)
	var script []item
	for i := 0; i < k; i++ {
		switch sym.Choose("kind", 3) {
		case 0:
			script = append(script, item{c: mkChunk(4, byte(i))})
		case 1:
			script = append(script, item{c: mkChunk(5, byte(i))})
		default:
			script = append(script, item{err: itemErrs[i]})
		}
	}
	rd := newScripted(script...)
	p := chunk.NewParser(rd)
	sa, _ := p.Stream(4)
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	sb, err := p.Stream(5)
	sym.Assert(err == nil, "requesting a stream fails")
	routeAll(p, script, 4, 5, sa, sb, done, rd)
}

// Requests for streams.
//
//verif:property C13
//verif:bounds every sequence of 3 (thorough: 4) requests for 0..3 ids out of 3 arbitrary distinct ones
//verif:shards 5 10
func ParserRequests() {
	p := chunk.NewParser(newScripted())
	ids := [3]uint32{sym.Uint32("id"), sym.Uint32("id"), sym.Uint32("id")}
	sym.Assume(sym.And(ids[0] != ids[1], ids[1] != ids[2], ids[0] != ids[2]))
	taken := [3]bool{}
	var single [3]chunk.Stream
	k := sym.Param(3, 4)
	for i := 0; i < k; i++ {
		pick := [][]int{{}, {0}, {1}, {2}, {0, 1}, {1, 2}, {2, 0}, {1, 1}, {0, 1, 2}, {2, 0, 2}}[sym.Choose("pick", 10)]
		n := len(pick)
		if n == 0 {
			_, err := p.Stream()
			sym.Assert(err != nil, "a request for no stream succeeds")
			sym.Cover("none")
			continue
		}
		var req []uint32
		for _, x := range pick {
			req = append(req, ids[x])
		}
		s, err := p.Stream(req...)
		if n == 1 {
			x := pick[0]
			sym.Assert(err == nil && s != nil, "a request for one stream fails")
			if single[x] != nil {
				sym.Assert(s == single[x], "requests for one id yield different streams")
				sym.Cover("again")
			}
			single[x], taken[x] = s, true
			for y := range single {
				sym.Assert(y == x || single[y] == nil || single[y] != s, "different ids share a stream")
			}
			continue
		}
		clash := false
		for _, x := range pick {
			clash = clash || taken[x]
		}
		sym.Assert((err != nil) == clash, "a combined stream is not refused exactly when one of its ids is taken")
		if clash {
			sym.Cover("refused")
		} else {
			sym.Cover("combined")
			sym.Assert(s != nil, "a combined stream is missing")
			for _, x := range pick {
				taken[x] = true
			}
		}
	}
	// what is not taken can still be combined, what is taken cannot
	for x := range ids {
		y := (x + 1) % 3
		if !taken[x] && !taken[y] {
			_, err := p.Stream(ids[x], ids[y])
			sym.Assert(err == nil, "a refused request leaves ids taken")
			return
		}
	}
}

// A combined stream yields exactly the messages of its ids.
//
//verif:property C13 C14
//verif:bounds ids of two or three streams combined (one perhaps named twice) and one apart; every script of 3 messages on them
//verif:shards 3 3
func ParserCombined() {
	var script []item
	dup := sym.Choose("dup", 3)
	for i := 0; i < 3; i++ {
		script = append(script, item{c: mkChunk(uint32(4+sym.Choose("id", 3)), byte(i))})
	}
	rd := newScripted(script...)
	p := chunk.NewParser(rd)
	var m chunk.Stream
	var err error
	switch dup {
	case 0:
		m, err = p.Stream(4, 5)
	case 1:
		m, err = p.Stream(4, 5, 4)
	default:
		m, err = p.Stream(5, 5, 4)
	}
	sym.Assert(err == nil, "requesting a combined stream fails")
	s6, _ := p.Stream(6)
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	seen := make([]bool, len(script))
	var lastOf [7]int
	for range script {
		var c *chunk.Chunk
		select {
		case c = <-m.In():
			sym.Assert(c != nil && c.StreamId() != 6, "a combined stream yields a message of another id")
		case c = <-s6.In():
			sym.Assert(c != nil && c.StreamId() == 6, "a stream yields a message of another id")
		case <-p.Errs():
			sym.Fail("an error is reported for no reason")
		}
		i := int(c.TypeId())
		sym.Assert(c == script[i].c && !seen[i], "a message is altered or delivered twice")
		sym.Assert(lastOf[c.StreamId()] <= i, "messages of one chunk stream change order")
		lastOf[c.StreamId()] = i
		seen[i] = true
	}
	p.Close()
	<-done
	sym.Cover("closed")
	_, ok := <-m.In()
	sym.Assert(!ok, "a combined stream yields too much, or does not end")
	_, ok = <-s6.In()
	sym.Assert(!ok, "a stream yields too much, or does not end")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines stay behind after the parser was closed")
}

// source is a Stream fed by the harness.
type source struct{ ch chan *chunk.Chunk }

func (s source) In() <-chan *chunk.Chunk { return s.ch }

// A combined stream under every schedule.
//
//verif:property C14
//verif:bounds two or three sources with 0..2 messages each (at most 3, thorough: 4, in all); sources that end; every schedule of feeders, forwarders and the consumer
//verif:mode full race noobs
//verif:shards 3 9
func MultiAnySchedule() {
	ns := 2 + sym.Choose("sources", 2)
	multiRun(ns, sym.Param(3, 4), 0)
}

// The same with buffered sources that end before or while they are combined.
//
//verif:property C14
//verif:bounds two or three sources with 0..2 buffered messages each (at most 4, thorough: 5, in all), already ended; every schedule of forwarders and the consumer
//verif:mode full race noobs
//verif:shards 2 4
func MultiBuffered() {
	ns := 2 + sym.Choose("sources", 2)
	multiRun(ns, sym.Param(4, 5), 4)
}

func multiRun(ns, most, capacity int) {
	m := chunk.NewMultiStream()
	counts := make([]int, ns)
	total := 0
	var srcs []chunk.Stream
	var raw []source
	for i := range counts {
		counts[i] = sym.Choose("count", 3)
		total += counts[i]
		s := source{make(chan *chunk.Chunk, capacity)}
		raw = append(raw, s)
		srcs = append(srcs, s)
	}
	sym.Assume(total <= most)
	all := make([][]*chunk.Chunk, ns)
	for i := range counts {
		for j := 0; j < counts[i]; j++ {
			all[i] = append(all[i], mkChunk(uint32(i), byte(j)))
		}
	}
	feed := func(i int) {
		for _, c := range all[i] {
			raw[i].ch <- c
		}
		close(raw[i].ch)
	}
	if capacity > 0 {
		for i := range counts {
			feed(i)
		}
	}
	if ns == 2 {
		m.Append(srcs[0]).Append(srcs[1])
	} else {
		m.Append(srcs...)
	}
	if capacity == 0 {
		for i := range counts {
			go feed(i)
		}
	}
	ended := make(chan struct{})
	go func() { m.AwaitClose(); close(ended) }()
	got := make([]int, ns)
	n := 0
	for c := range m.In() {
		sym.Assert(c != nil, "a combined stream delivers nothing as a message")
		i := int(c.StreamId())
		sym.Assert(got[i] < counts[i] && c == all[i][got[i]], "a combined stream reorders, duplicates or alters messages of one source")
		got[i]++
		n++
	}
	sym.Cover("ended")
	sym.Assert(n == total, "a combined stream ends before everything was delivered")
	<-ended
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines stay behind after a combined stream ended")
}

// A combined stream does not end while a source is open.
//
//verif:property C14
//verif:bounds two sources, 0..1 messages each, the other one left open; every schedule
//verif:mode full race noobs
func MultiStaysOpen() {
	m := chunk.NewMultiStream()
	a, b := source{make(chan *chunk.Chunk)}, source{make(chan *chunk.Chunk)}
	m.Append(a, b)
	go m.AwaitClose()
	n := sym.Choose("n", 2)
	go func() {
		for i := 0; i < n; i++ {
			a.ch <- mkChunk(4, byte(i))
		}
		close(a.ch)
	}()
	for i := 0; i < n; i++ {
		c, ok := <-m.In()
		sym.Assert(ok && c.TypeId() == byte(i), "a combined stream loses a message")
	}
	sym.Quiesce()
	select {
	case c, ok := <-m.In():
		sym.Assert(ok, "a combined stream ends while a source is open")
		sym.Assert(c == nil, "a combined stream delivers a message twice")
	default:
	}
	sym.Cover("open")
	x := mkChunk(5, 9)
	go func() { b.ch <- x; close(b.ch) }()
	c, ok := <-m.In()
	sym.Assert(ok && c == x, "a combined stream loses the message of a source that outlived another")
	_, ok = <-m.In()
	sym.Assert(!ok, "a combined stream does not end")
}

// closeParser closes a running parser and checks that everything ends.
func closeParser(p *chunk.Parser, done chan struct{}, streams ...chunk.Stream) {
	p.Close()
	<-done
	sym.Cover("closed")
	_, ok := <-p.Errs()
	sym.Assert(!ok, "the error channel is not closed by closing the parser")
	for _, s := range streams {
		// at most one message was on its way into a combined stream
		c, ok := <-s.In()
		if ok {
			sym.Assert(c != nil, "a stream yields no message where it should end")
			c, ok = <-s.In()
		}
		sym.Assert(!ok && c == nil, "a stream is not closed by closing the parser")
	}
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "a receive loop outlives the close")
}

// Closing a parser whose scripted reader may be idle, or stuck delivering something nobody takes.
//
//verif:property C15
//verif:bounds the parser idle, or up to 2 messages or errors pending that nobody takes, single or combined streams; every schedule of parser, reader and closer
//verif:mode full race noobs
//verif:shards 3 3
func CloseAnySchedule() {
	n := sym.Choose("n", 3)
	var script []item
	for i := 0; i < n; i++ {
		if sym.Choose("kind", 2) == 0 {
			script = append(script, item{c: mkChunk(4, byte(i))})
		} else {
			script = append(script, item{err: itemErrs[i]})
		}
	}
	p := chunk.NewParser(newScripted(script...))
	var s chunk.Stream
	if sym.Choose("combined", 2) == 1 {
		s, _ = p.Stream(4, 5)
	} else {
		s, _ = p.Stream(4)
	}
	done := make(chan struct{})
	go func() { p.Recv(); close(done) }()
	started(p, n)
	closeParser(p, done, s)
}

// started lets the parser get going; the schedule decides how far it gets.
func started(p *chunk.Parser, n int) {
	if sym.Choose("settle", 2) == 1 {
		sym.Quiesce()
	} else {
		sym.Yield()
	}
}

// Closing a parser ends every stream ever requested.
//
//verif:property C15
//verif:bounds 1..4 streams of arbitrary distinct ids, requested singly, combined or both, before the parser runs or while it does, nothing pending or a message on any of them
//verif:shards 4 4
func CloseEveryStream() {
	n := 1 + sym.Choose("n", 4)
	ids := make([]uint32, n)
	for i := range ids {
		ids[i] = sym.Uint32("id")
		for j := 0; j < i; j++ {
			sym.Assume(ids[j] != ids[i])
		}
	}
	var script []item
	if sym.Choose("pending", 2) == 1 {
		script = append(script, item{c: anyChunk(ids[sym.Choose("on", n)], 1)})
	}
	p := chunk.NewParser(newScripted(script...))
	how := sym.Choose("how", 4) // singly before, singly while running, combined and then singly, combined from the start
	done := make(chan struct{})
	var ss []chunk.Stream
	one := func() {
		for _, id := range ids {
			s, err := p.Stream(id)
			sym.Assert(err == nil && s != nil, "a request for one stream fails")
			ss = append(ss, s)
		}
	}
	switch how {
	case 0:
		one()
	case 2:
		s, err := p.Stream(append([]uint32(nil), ids...)...)
		sym.Assert(err == nil && s != nil, "a request for several streams fails")
		ss = append(ss, s)
		if n > 1 {
			one()
		}
	case 3:
		s, err := p.Stream(append([]uint32(nil), ids...)...)
		sym.Assert(err == nil && s != nil, "a request for several streams fails")
		ss = append(ss, s)
	}
	go func() { p.Recv(); close(done) }()
	if how == 1 {
		sym.Quiesce()
		one()
	}
	sym.Quiesce()
	closeParser(p, done, ss...)
}

// Closing a parser over the real reader in every state of the connection.
//
//verif:property C15
//verif:bounds the real reader over a transport holding a message of 0..2 bytes whole, cut at any byte or nothing, then ended or idle until the close; the message taken or not; single, combined or no stream
//verif:shards 3 3
func CloseRealReader() {
	want := sym.Choose("stream", 3)
	n := sym.Choose("n", 3)
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 4}, MessageHeader: chunk.MessageHeader{Length: uint32(n), TypeId: 8}}
	b := wireWhole(h, sym.Bytes("data", n), 1)
	b = b[:sym.Choose("cut", len(b)+1)]
	idle := sym.Choose("idle", 2) == 1
	p := newPipe()
	p.in <- b
	if !idle {
		close(p.in)
	}
	ps := chunk.NewParser(chunk.NewReader(p, 1, chunk.NewNormalizer()))
	var ss []chunk.Stream
	switch want {
	case 1:
		s, _ := ps.Stream(4)
		ss = append(ss, s)
	case 2:
		s, _ := ps.Stream(4, 5)
		ss = append(ss, s)
	}
	done := make(chan struct{})
	go func() { ps.Recv(); close(done) }()
	sym.Quiesce()
	if want > 0 && sym.Choose("take", 2) == 1 {
		select {
		case <-ss[0].In():
			sym.Cover("taken")
		case <-ps.Errs():
			sym.Cover("error taken")
		default:
		}
		sym.Quiesce()
	}
	if idle {
		// the transport's read returns once the connection is closed
		closed := make(chan struct{})
		go func() { ps.Close(); close(closed) }()
		sym.Quiesce()
		close(p.in)
		<-closed
	}
	closeParser(ps, done, ss...)
}

// Closing the real parser and reader under every schedule.
//
//verif:property C15
//verif:bounds the real reader over a transport that ends after 0 or 1 messages of 1 byte, or is silent; nobody takes anything; every schedule
//verif:mode full race noobs
//verif:steps 20000000
func CloseRealReaderAnySchedule() {
	var b []byte
	if sym.Choose("message", 2) == 1 {
		h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 4}, MessageHeader: chunk.MessageHeader{FormatId: 3, Length: 0, TypeId: 8}}
		h.BasicHeader.FormatId = 3
		b = wireWhole(h, nil, 1)
	}
	ps := chunk.NewParser(chunk.NewReader(&src{b: b}, 1, chunk.NewNormalizer()))
	s, _ := ps.Stream(4)
	done := make(chan struct{})
	go func() { ps.Recv(); close(done) }()
	started(ps, 1)
	closeParser(ps, done, s)
}

// Closing a reader by itself, in every state, ends its loop.
//
//verif:property C15
//verif:bounds the real reader over a transport with 0..2 messages of no bytes, then ended; 0..2 events taken; closed once or twice; every schedule
//verif:mode full race noobs
func CloseReaderAnySchedule() {
	n := sym.Choose("n", 3)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, 0xc4)
	}
	r := chunk.NewReader(&src{b: b}, 1, chunk.NewNormalizer())
	done := make(chan struct{})
	go func() { r.Recv(); close(done) }()
	for i := sym.Choose("take", 3); i > 0; i-- {
		select {
		case <-r.Chunks():
		case err := <-r.Errs():
			sym.Assert(err == io.EOF, "the end of the transport is reported as something else")
		}
	}
	r.Close()
	if sym.Choose("again", 2) == 1 {
		r.Close()
	}
	<-done
	sym.Cover("closed")
}

// Closing twice, or from two goroutines, is the same as closing once.
//
//verif:property C15
//verif:bounds a running parser with an idle reader or one pending error, closed by two goroutines; every schedule
//verif:mode full race noobs
func CloseTwice() {
	var script []item
	if sym.Choose("pending", 2) == 1 {
		script = append(script, item{err: itemErrs[0]})
	}
	p := chunk.NewParser(newScripted(script...))
	s, _ := p.Stream(4)
	done, c2 := make(chan struct{}), make(chan struct{})
	go func() { p.Recv(); close(done) }()
	sym.Quiesce()
	go func() { p.Close(); close(c2) }()
	closeOne := func() { p.Close() }
	closeOne()
	<-c2
	closeParser(p, done, s)
}
