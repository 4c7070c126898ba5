package core

import (
	"crypto/rand"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// rewriter is a normalizer of the application's.
type rewriter struct {
	seen []chunk.Header
	give []*chunk.Header
}

func (r *rewriter) Normalize(h *chunk.Header) *chunk.Header {
	r.seen = append(r.seen, *h)
	sym.Assert(len(r.seen) <= len(r.give), "the normalizer is asked more often than there are headers")
	return r.give[len(r.seen)-1]
}

// A reader takes its headers from the normalizer it was given.
//
//verif:property C39
//verif:bounds 2 (thorough: 3) headers of formats 0 and 1 (thorough: 0..2) with any fields on chunk stream 5, which the normalizer turns into headers of its own: any type, timestamp and message stream, 0..3 bytes long; a type 1 header there is a Set Chunk Size whatever the type on the wire was, and the other way round
//verif:shards 4 9
func PlugNormalizer() {
	k := sym.Param(2, 3)
	x := sym.Choose("formats", sym.Param(4, 9))
	var wire []byte
	var want []msg
	var sent []chunk.Header
	n := &rewriter{}
	for i := 0; i < k; i++ {
		f := byte(x % sym.Param(2, 3))
		if i == 1 {
			f = byte(x / sym.Param(2, 3))
		} else if i == 2 {
			f = 0
		}
		h := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: 5}, MessageHeader: chunk.MessageHeader{FormatId: f, TimestampDelta: f != 0}}
		h.MessageHeader.Timestamp = sym.Uint32("ts")
		sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
		if f < 2 {
			h.MessageHeader.Length = sym.Uint32("length")
			sym.Assume(h.MessageHeader.Length <= 0xffffff)
			h.MessageHeader.TypeId = sym.Byte("typ")
		}
		if f == 0 {
			h.MessageHeader.StreamId = sym.Uint32("msid")
		}
		sent = append(sent, h)
		g := h
		g.MessageHeader.Timestamp = sym.Uint32("newts")
		g.MessageHeader.Length = uint32(sym.Choose("len", 4))
		g.MessageHeader.TypeId = sym.Byte("newtyp")
		g.MessageHeader.StreamId = sym.Uint32("newmsid")
		sym.Assume(g.MessageHeader.Timestamp < 0xffffff && g.MessageHeader.TypeId != 1)
		n.give = append(n.give, &g)
		body := sym.Bytes("body", int(g.MessageHeader.Length))
		wire = append(append(append(wire, f<<6|5), wireMessage(f, h.MessageHeader.Timestamp, h.MessageHeader.Length, h.MessageHeader.TypeId, h.MessageHeader.StreamId)...), body...)
		want = append(want, msg{g, body})
	}
	evs := readAll(chunk.NewReader(&src{b: wire}, 128, n), k)
	sym.Cover("read")
	sym.Assert(len(n.seen) == k, "a header is not given to the normalizer")
	for i := range n.seen {
		sym.Assert(sameHeader(&n.seen[i], &sent[i]), "the normalizer is given another header than was received")
	}
	checkEvents(evs, want)
}

// A normalizer is given the header of every chunk, and the header it gave for the first one is the message's.
//
//verif:property C39
//verif:bounds a message of 2 or 3 (thorough: 2..4) bytes on chunk stream 9 read at chunk size 1, its later chunks with headers of any format and any fields, and a message of one byte on chunk stream 6 before any of them or after it; the normalizer gives any header for each, of the same chunk stream
//verif:shards 2 3
func PlugContinue() {
	x := sym.Choose("length", sym.Param(2, 3))
	n := 2 + x
	n2 := sym.Choose("at", n+1)
	var wire []byte
	var want []msg
	var sent []chunk.Header
	norm := &rewriter{}
	add := func(f byte, csid uint32, length int, data byte) *chunk.Header {
		h := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: csid}, MessageHeader: chunk.MessageHeader{FormatId: f, TimestampDelta: f == 1 || f == 2}}
		if f < 3 {
			h.MessageHeader.Timestamp = sym.Uint32("ts")
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
		}
		if f < 2 {
			h.MessageHeader.Length = sym.Uint32("length")
			sym.Assume(h.MessageHeader.Length <= 0xffffff)
			h.MessageHeader.TypeId = sym.Byte("typ")
		}
		if f == 0 {
			h.MessageHeader.StreamId = sym.Uint32("msid")
		}
		sent = append(sent, h)
		g := h
		g.MessageHeader.Timestamp = sym.Uint32("newts")
		g.MessageHeader.Length = uint32(length)
		g.MessageHeader.TypeId = sym.Byte("newtyp")
		g.MessageHeader.StreamId = sym.Uint32("newmsid")
		sym.Assume(sym.And(g.MessageHeader.Timestamp < 0xffffff, g.MessageHeader.TypeId != 1))
		norm.give = append(norm.give, &g)
		wire = append(append(append(wire, f<<6|byte(csid)), wireMessage(f, h.MessageHeader.Timestamp, h.MessageHeader.Length, h.MessageHeader.TypeId, h.MessageHeader.StreamId)...), data)
		return &g
	}
	var first *chunk.Header
	var body []byte
	for i := 0; i <= n; i++ {
		if i == n2 {
			b := sym.Byte("other")
			want = append(want, msg{*add(0, 6, 1, b), []byte{b}})
		}
		if i == n {
			break
		}
		f := byte(0)
		if i > 0 {
			f = byte(sym.Choose("f", 4))
		}
		b := sym.Byte("body")
		body = append(body, b)
		length := n
		if i > 0 {
			length = 7
		}
		if h := add(f, 9, length, b); i == 0 {
			first = h
		}
		if i == n-1 {
			want = append(want, msg{*first, body})
		}
	}
	evs := readAll(chunk.NewReader(&src{b: wire}, 1, norm), 2)
	sym.Cover("read")
	sym.Assert(len(norm.seen) == n+1, "the header of a chunk is not given to the normalizer")
	for i := range norm.seen {
		sym.Assert(sameHeader(&norm.seen[i], &sent[i]), "the normalizer is given another header than was received")
	}
	checkEvents(evs, want)
}

// A reader with the normalizer that does nothing completes no header.
//
//verif:property C39
//verif:bounds a message of any type but 1 and 0..3 bytes, then a header of format 1, 2 or 3 on the same chunk stream, the message of which has the length and type transmitted, or none
func PlugNoop() {
	h := chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 7}, MessageHeader: chunk.MessageHeader{
		Timestamp: sym.Uint32("ts"), Length: uint32(sym.Choose("len", 4)), TypeId: sym.Byte("typ"), StreamId: sym.Uint32("msid")}}
	sym.Assume(h.MessageHeader.Timestamp < 0xffffff && h.MessageHeader.TypeId != 1)
	body := sym.Bytes("body", int(h.MessageHeader.Length))
	want := []msg{{h, body}}
	f := byte(1 + sym.Choose("f", 3))
	g := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: 7}, MessageHeader: chunk.MessageHeader{FormatId: f, TimestampDelta: f != 3}}
	if f < 3 {
		g.MessageHeader.Timestamp = sym.Uint32("ts")
		sym.Assume(g.MessageHeader.Timestamp < 0xffffff)
	}
	var body2 []byte
	if f == 1 {
		g.MessageHeader.Length = uint32(sym.Choose("len", 4))
		g.MessageHeader.TypeId = sym.Byte("typ")
		sym.Assume(g.MessageHeader.TypeId != 1)
		body2 = sym.Bytes("body", int(g.MessageHeader.Length))
	}
	want = append(want, msg{g, body2})
	wire := append(append([]byte{7}, wireMessage(0, h.MessageHeader.Timestamp, h.MessageHeader.Length, h.MessageHeader.TypeId, h.MessageHeader.StreamId)...), body...)
	wire = append(append(append(wire, f<<6|7), wireMessage(f, g.MessageHeader.Timestamp, g.MessageHeader.Length, g.MessageHeader.TypeId, 0)...), body2...)
	checkEvents(readAll(chunk.NewReader(&src{b: wire}, 128, chunk.NoopNormalizer), 2), want)
	sym.Cover("read")
}

// note is a control message of the application's.
type note struct{ n uint32 }

func (n *note) Read(io.Reader) error  { return nil }
func (n *note) Write(io.Writer) error { return nil }
func (n *note) TypeId() byte          { return 0x77 }

// noteParser and noteChunker are the application's; they fail as they are told.
type noteParser struct {
	got []*chunk.Chunk
	err error
}

func (p *noteParser) Parse(c *chunk.Chunk) (control.Control, error) {
	p.got = append(p.got, c)
	if p.err != nil {
		return nil, p.err
	}
	return &note{uint32(len(p.got))}, nil
}

type noteChunker struct {
	got  []control.Control
	give *chunk.Chunk
	err  error
}

func (k *noteChunker) Chunk(c control.Control) (*chunk.Chunk, error) {
	k.got = append(k.got, c)
	return k.give, k.err
}

// A control stream uses the parser and the chunker it was given.
//
//verif:property C39
//verif:bounds every sequence of 4 (thorough: 6) events: a chunk with any header fields and 0..6 arbitrary bytes arriving, parsed or refused with one of eighteen errors; a message sent, chunked into a message of any chunk stream 2..62 with any header fields and 0..5 bytes, or refused
//verif:shards 2 4
func PlugControl() {
	in := source{make(chan *chunk.Chunk)}
	w := &buf{}
	p, q := &noteParser{}, &noteChunker{}
	s := control.NewStream(in, chunk.NewWriter(w, 128), p, q)
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	var wire []byte
	for i, k := 0, sym.Param(4, 6); i < k; i++ {
		op := sym.Choose("op", 4)
		fault := troubleOf(3*i + op)
		switch op {
		case 0, 1:
			p.err = nil
			if op == 1 {
				p.err = fault
			}
			before := len(p.got)
			c := anyChunk(2, []int{0, 1, 4, 6}[i%4])
			in.ch <- c
			select {
			case m := <-s.In():
				n, ok := m.(*note)
				sym.Assert(op == 0 && ok && int(n.n) == before+1, "what arrives is not what the given parser made")
			case err := <-s.Errs():
				sym.Assert(op == 1 && err == fault, "the given parser's error is not reported")
			}
			sym.Assert(len(p.got) == before+1 && sameHeader(p.got[before].Header, c.Header) && len(p.got[before].Data) == len(c.Data) && eqBytes(p.got[before].Data, c.Data), "the given parser is asked other than once, or for another chunk")
		case 2, 3:
			q.err, q.give = nil, nil
			before := len(q.got)
			m := &note{uint32(i)}
			if op == 2 {
				n := []int{5, 0, 3, 1}[i%4]
				h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: sym.Uint32("csid")}, MessageHeader: chunk.MessageHeader{
					Timestamp: sym.Uint32("ts"), Length: uint32(n), TypeId: sym.Byte("typ"), StreamId: sym.Uint32("msid")}}
				sym.Assume(sym.And(h.BasicHeader.StreamId >= 2, h.BasicHeader.StreamId <= 62, h.MessageHeader.Timestamp < 0xffffff))
				q.give = chunk.New(h, sym.Bytes("out", n))
				wire = append(append(append(wire, byte(h.BasicHeader.StreamId)), wireMessage(0, h.MessageHeader.Timestamp, uint32(n), h.MessageHeader.TypeId, h.MessageHeader.StreamId)...), q.give.Data...)
			} else {
				q.err = fault
			}
			s.Out() <- m
			if op == 3 {
				sym.Assert(<-s.Errs() == fault, "the given chunker's error is not reported")
			}
			sym.Quiesce()
			sym.Assert(len(q.got) == before+1 && q.got[before] == control.Control(m), "the given chunker is asked other than once, or for another message")
		}
		sym.Quiesce()
		sym.Assert(len(w.b) == len(wire) && eqBytes(w.b, wire), "something other than what the given chunker made is written")
	}
	s.Close()
	<-done
	sym.Cover("closed")
}

// plugStep is a handshake step of the application's.
type plugStep struct {
	next  handshake.Sequence
	reads int
}

func (s *plugStep) Read(r io.Reader) error {
	s.reads++
	var b [1]byte
	_, err := io.ReadFull(r, b[:])
	return err
}
func (s *plugStep) WriteTo(w io.Writer) error { return nil }
func (s *plugStep) Next() handshake.Sequence  { return s.next }

// A handshake starts at the step it was given, and may go on with the standard ones.
//
//verif:property C39
//verif:bounds a step of the application's that reads one byte, then nothing, or the version step supporting any version
//verif:steps 20000000
func PlugHandshake() {
	rand.Reader = symRand{}
	first := &plugStep{}
	v := sym.Byte("supported")
	if sym.Choose("more", 2) == 1 {
		first.next = &handshake.VerisonSequence{Supported: v}
	}
	b := sym.Bytes("in", 2)
	t := &plugPeer{src: src{b: b}}
	err := handshake.With(&handshake.Param{Conn: t, Initial: first}).Handshake()
	sym.Assert(first.reads == 1, "the given first step is not run, or twice")
	if first.next == nil {
		sym.Cover("alone")
		sym.Assert(err == nil && t.src.pos == 1 && len(t.out.b) == 0, "a handshake goes on when the given chain has ended")
		return
	}
	// the connection ends after two bytes
	sym.Assert(err != nil && t.src.pos == 2, "the handshake does not go on with the step's successor")
	if b[1] == v {
		sym.Cover("answered")
		sym.Assert(len(t.out.b) >= 1 && t.out.b[0] == v, "the supported version is not answered")
	} else {
		sym.Cover("refused")
		sym.Assert(len(t.out.b) == 0, "another version is answered")
	}
}

// A handshake may start at any of the standard steps.
//
//verif:property C39
//verif:bounds the acknowledgement steps as first steps; a C1, a C2 and a challenge of any content, the C2 right or wrong
//verif:steps 20000000
func PlugLater() {
	rand.Reader = symRand{}
	s1 := new(handshake.AckPacket)
	sym.Fill("challenge", s1.Payload[:])
	c2 := sym.Bytes("c2", packet)
	var wire []byte
	var first handshake.Sequence = handshake.NewServerAckSequence(s1)
	at := sym.Choose("at", 2)
	if at == 0 {
		c := handshake.NewClientAckSequence()
		c.S1 = s1
		first = c
		wire = sym.Bytes("c1", packet)
	}
	t := &plugPeer{src: src{b: append(append([]byte(nil), wire...), c2...)}}
	err := handshake.With(&handshake.Param{Conn: t, Initial: first}).Handshake()
	if eqBytes(c2[8:], s1.Payload[:]) {
		sym.Cover("right")
		sym.Assert(err == nil && t.src.pos == len(t.src.b), "a handshake started at a later step fails")
	} else {
		sym.Cover("wrong")
		sym.Assert(err == handshake.MismatchedChallengeErr, "a handshake started at a later step accepts any challenge, or fails earlier")
	}
	sym.Assert(len(t.out.b) == 2*len(wire), "a handshake started at a later step writes more or less than that step")
	if at == 0 {
		sym.Assert(eqBytes(t.out.b[8:packet], s1.Payload[:]), "a handshake started at a later step sends another challenge")
		sym.Assert(eqBytes(t.out.b[packet+8:], wire[8:]), "a handshake started at a later step echoes another challenge")
	}
}

type plugPeer struct {
	src src
	out buf
}

func (p *plugPeer) Read(b []byte) (int, error)  { return p.src.Read(b) }
func (p *plugPeer) Write(b []byte) (int, error) { return p.out.Write(b) }
