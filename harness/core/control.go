package core

import (
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// anyControl makes an arbitrary control message of a kind and its reference encoding.
func anyControl(kind, body int) (control.Control, []byte) {
	v := sym.Uint32("v")
	switch kind {
	case 0:
		if v > 0xffffff {
			return control.NewSetChunkSize(v), []byte{0, 255, 255, 255}
		}
		return control.NewSetChunkSize(v), beBytes(uint64(v), 4)
	case 1:
		return &control.AbortMessage{ChunkStreamId: v}, beBytes(uint64(v), 4)
	case 2:
		return &control.Acknowledgement{SequenceNumber: v}, beBytes(uint64(v), 4)
	case 3:
		t := sym.Uint16("type")
		d := sym.Bytes("body", body)
		return &control.Event{Type: control.EventType(t), Body: d}, cat(beBytes(uint64(t), 2), d)
	case 4:
		return &control.WindowAckSize{WindowAckSize: v}, beBytes(uint64(v), 4)
	default:
		l := sym.Byte("limit")
		return &control.SetPeerBandwidth{AckWindowSize: v, LimitType: control.LimitType(l)}, cat(beBytes(uint64(v), 4), []byte{l})
	}
}

var bodySizes = []int{0, 1, 2, 3, 4, 5, 6, 8, 10, 126, 127, 128, 254, 510, 511, 512, 513, 600, 4096}

// Encode and decode every control message.
//
//verif:property C16
//verif:bounds every value of every field of every control message; event data of 0..10, 126..128, 254, 510..513, 600 and 4096 arbitrary bytes
//verif:steps 20000000
func ControlRoundTrip() {
	kind := sym.Choose("kind", 6)
	body := 0
	if kind == 3 {
		body = bodySizes[sym.Choose("body", len(bodySizes))]
	}
	c, want := anyControl(kind, body)
	w := &buf{}
	sym.Assert(c.Write(w) == nil, "encoding a control message to a working destination fails")
	sym.Cover("encoded")
	sym.Assert(len(w.b) == len(want), "the encoding of a control message has the wrong length")
	sym.Assert(eqBytes(w.b, want), "a control message is not encoded as RTMP prescribes")
	got := newControl(kind)
	r := &src{b: w.b}
	sym.Assert(got.Read(r) == nil, "decoding an encoded control message fails")
	sym.Assert(r.pos == len(w.b), "decoding a control message leaves bytes behind")
	sym.Assert(sameControl(c, got), "the decoded control message differs from the encoded one")
	w2 := &buf{}
	sym.Assert(got.Write(w2) == nil && len(w2.b) == len(want), "a decoded message is not encoded again")
	sym.Assert(eqBytes(w2.b, want), "a decoded message is encoded differently")
	sym.Assert(c.TypeId() == byte(kind+1), "a control message has the wrong type id")
	sym.ObserveBytes("wire", w.b)
}

// Decode arbitrary bytes as every control message.
//
//verif:property C16
//verif:bounds every control message type and every body of its length (events with 0..4 data bytes), previous content of the receiver arbitrary
func ControlDecode() {
	kind := sym.Choose("kind", 6)
	n := controlLen[kind]
	if kind == 3 {
		n += sym.Choose("more", 5)
	}
	b := sym.Bytes("b", n)
	c, _ := anyControl(kind, 2)
	sym.Assert(c.Read(&src{b: append([]byte(nil), b...)}) == nil, "decoding a complete control message fails")
	sym.Cover("decoded")
	ok := false
	switch x := c.(type) {
	case *control.SetChunkSize:
		v := be(b)
		ok = sym.Or(sym.And(v > 0xffffff, x.ChunkSize() == 0xffffff), sym.And(v <= 0xffffff, uint64(x.ChunkSize()) == v))
	case *control.AbortMessage:
		ok = uint64(x.ChunkStreamId) == be(b)
	case *control.Acknowledgement:
		ok = uint64(x.SequenceNumber) == be(b)
	case *control.Event:
		ok = len(x.Body) == n-2
		if ok {
			ok = sym.And(uint64(x.Type) == be(b[:2]), eqBytes(x.Body, b[2:]))
		}
	case *control.WindowAckSize:
		ok = uint64(x.WindowAckSize) == be(b)
	case *control.SetPeerBandwidth:
		ok = sym.And(uint64(x.AckWindowSize) == be(b[:4]), byte(x.LimitType) == b[4])
	}
	sym.Assert(ok, "a control message is decoded to something other than its bytes mean")
	sym.Observe("kind", uint64(kind))
}

// A destination that fails makes encoding fail.
//
//verif:property C16
//verif:bounds every control message, events with 0..2 data bytes; the destination fails after any number of bytes
func ControlWriteFails() {
	kind := sym.Choose("kind", 6)
	body := 0
	if kind == 3 {
		body = sym.Choose("body", 3)
	}
	c, want := anyControl(kind, body)
	w := &limited{left: sym.Choose("left", len(want)), err: troubles[sym.Choose("error", len(troubles))]}
	err := c.Write(w)
	sym.Assert(err == w.err, "a failed write of a control message is not reported")
	sym.Cover("failed")
}

// limited is a transport that takes a number of bytes and then fails.
type limited struct {
	b    []byte
	left int
	err  error
}

func (w *limited) Write(p []byte) (int, error) {
	n := min(len(p), w.left)
	w.b = append(w.b, p[:n]...)
	w.left -= n
	if n < len(p) {
		return n, w.err
	}
	return n, nil
}

// Control messages to chunks and back.
//
//verif:property C17
//verif:bounds every value of every field of every control message; event data of 0..10, 126..128, 254, 510..513, 600 and 4096 arbitrary bytes
//verif:steps 20000000
func ControlChunks() {
	kind := sym.Choose("kind", 6)
	body := 0
	if kind == 3 {
		body = bodySizes[sym.Choose("body", len(bodySizes))]
	}
	c, want := anyControl(kind, body)
	ch := control.NewChunker()
	k, err := ch.Chunk(c)
	sym.Assert(err == nil && k != nil, "a control message cannot be turned into a chunk")
	sym.Cover("chunked")
	exp := chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(len(want)), TypeId: byte(kind + 1)}}
	sym.Assert(sameHeader(k.Header, &exp), "the chunk of a control message has the wrong header")
	sym.Assert(len(k.Data) == len(want), "the chunk of a control message has the wrong length")
	sym.Assert(eqBytes(k.Data, want), "the chunk of a control message does not carry its encoding")
	p := control.NewParser()
	got, err := p.Parse(k)
	sym.Assert(err == nil && got != nil, "a control chunk cannot be parsed")
	sym.Assert(sameControl(c, got), "a control message does not survive its chunk")
	again, err := p.Parse(k)
	sym.Assert(err == nil && again != got && got != c, "parsing does not yield a freshly allocated message")
	// another message chunked and parsed meanwhile changes nothing
	kind2 := (kind + 1) % 6
	c2, want2 := anyControl(kind2, 1)
	k2, err := ch.Chunk(c2)
	sym.Assert(err == nil && len(k2.Data) == len(want2), "a second control message cannot be turned into a chunk")
	got2, err := p.Parse(k2)
	sym.Assert(err == nil && sameControl(c2, got2), "a second control message does not survive its chunk")
	sym.Assert(eqBytes(k.Data, want), "a chunk changes when another message is chunked")
	sym.Assert(sym.And(sameControl(c, got), sameHeader(k.Header, &exp)), "a message changes when another is parsed")
	sym.ObserveBytes("data", k.Data)
	// each chunk is its holder's to change
	var other []*chunk.Chunk
	for i := 0; i < 2; i++ {
		o, err := ch.Chunk(c)
		sym.Assert(err == nil, "a control message cannot be turned into a chunk again")
		other = append(other, o)
	}
	for _, k := range []*chunk.Chunk{k, other[0]} {
		for i := range k.Data {
			k.Data[i] ^= 0xa5
		}
		k.Header.BasicHeader.StreamId = 77
		k.Header.MessageHeader.Length, k.Header.MessageHeader.TypeId = 77, 77
	}
	sym.Assert(sameControl(c, got), "a control message shares its bytes with a chunk")
	o, err := ch.Chunk(c)
	sym.Assert(err == nil, "a control message cannot be turned into a chunk again")
	for _, o := range []*chunk.Chunk{other[1], o} {
		sym.Assert(sym.And(sameHeader(o.Header, &exp), eqBytes(o.Data, want)), "two chunks of a control message share memory")
	}
}

// Arbitrary chunks given to the parser.
//
//verif:property C17
//verif:bounds every type id, every payload of 0..7 bytes, any other header fields
//verif:shards 8 8
func ControlParseAny() {
	n := sym.Choose("n", 8)
	data := sym.Bytes("data", n)
	h := anyHeader(0, sym.Uint32("length"))
	t := h.MessageHeader.TypeId
	p := control.NewParser()
	c, err := p.Parse(chunk.New(h, data))
	if t == 0 || t > 6 {
		sym.Cover("unknown")
		sym.Assert(c == nil, "a message of unknown type is decoded")
		u, ok := err.(control.UnknownControlType)
		sym.Assert(ok && byte(u) == t, "an unknown type is not reported as such")
		return
	}
	kind := int(sym.Concretize(uint64(t))) - 1
	if n < controlLen[kind] {
		sym.Cover("short")
		sym.Assert(err != nil && c == nil, "a body too short for its type is decoded")
		return
	}
	if n > controlLen[kind] && kind != 3 {
		sym.Assert((err == nil) == (c != nil), "neither a message nor an error")
		return
	}
	sym.Cover("decoded")
	sym.Assert(err == nil && c != nil, "a complete control message is not decoded")
	sym.Assert(c.TypeId() == t, "a type id is decoded as another message")
	want := newControl(kind)
	sym.Assert(want.Read(&src{b: data}) == nil && sameControl(c, want), "a control message is decoded differently by the parser")
	w := &buf{}
	sym.Assert(c.Write(w) == nil, "a decoded message cannot be encoded")
	if kind != 0 {
		sym.Assert(len(w.b) == n && eqBytes(w.b, data), "a decoded message does not denote its bytes")
	}
	sym.ObserveBytes("wire", w.b)
}

// badControl cannot be encoded.
type badControl struct{ err error }

func (c badControl) Read(io.Reader) error  { return c.err }
func (c badControl) Write(io.Writer) error { return c.err }
func (c badControl) TypeId() byte          { return 3 }

// wireControl is the reference form of a control message on the wire.
func wireControl(kind int, body []byte) []byte {
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(len(body)), TypeId: byte(kind + 1)}}
	return wireWhole(h, body, 128)
}

// Every history of arriving and leaving messages, failures included.
//
//verif:property C18
//verif:bounds every sequence of 3 (thorough: 4) events: a decodable chunk, an undecodable one (of any type, its body missing, too short by any amount, or with any header fields), a message sent, one that cannot be encoded, one whose write fails, the end of the chunk stream; then the stream is closed
//verif:shards 6 6
func ControlStreamHistory() {
	in := source{make(chan *chunk.Chunk)}
	w := &limited{left: 1 << 30, err: errSink}
	s := control.NewStream(in, chunk.NewWriter(w, 128), control.NewParser(), control.NewChunker())
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	k := sym.Param(3, 4)
	ended := false
	var wire []byte
	for i := 0; i < k; i++ {
		op := sym.Choose("op", 6)
		if ended && (op == 0 || op == 1 || op == 5) {
			continue
		}
		switch op {
		case 0, 1:
			v := sym.Uint32("v")
			arriving := chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: 4, TypeId: 3}}, beBytes(uint64(v), 4))
			if op == 1 {
				arriving = undecodable(i == 0)
			}
			in.ch <- arriving
			select {
			case c := <-s.In():
				a, ok := c.(*control.Acknowledgement)
				sym.Assert(op == 0 && ok, "an undecodable chunk yields a message, or a chunk another message")
				sym.Assert(a.SequenceNumber == v, "a chunk is relayed as a message with another value")
			case err := <-s.Errs():
				sym.Assert(op == 1 && err != nil, "a decodable chunk is reported as an error")
			}
		case 2, 3, 4:
			v := sym.Uint32("v")
			var c control.Control = &control.WindowAckSize{WindowAckSize: v}
			if op == 3 {
				c = badControl{troubleOf(5*i + k)}
			}
			if op == 4 {
				w.left = sym.Choose("left", 16)
				w.err = troubleOf(w.left + 3*i)
			}
			s.Out() <- c
			if op == 2 {
				wire = append(wire, wireControl(4, beBytes(uint64(v), 4))...)
			} else {
				err := <-s.Errs()
				if op == 3 {
					sym.Assert(err == troubleOf(5*i+k), "a failure to encode is not reported")
				} else {
					sym.Assert(err == w.err, "a failure to write is not reported")
					wire = append(wire, wireControl(4, beBytes(uint64(v), 4))[:len(w.b)-len(wire)]...)
					w.left = 1 << 30
				}
			}
		case 5:
			close(in.ch)
			ended = true
		}
		// nothing else happens
		sym.Quiesce()
		select {
		case c, ok := <-s.In():
			sym.Assert(c == nil && !ok, "a message is delivered that nobody sent, or twice")
			sym.Fail("the stream ends before it is closed")
		case err, ok := <-s.Errs():
			sym.Assert(err == nil && !ok, "an error is reported twice or for no reason")
			sym.Fail("the stream ends before it is closed")
		default:
		}
		sym.Assert(len(w.b) == len(wire), "something other than the messages sent is written")
		sym.Assert(eqBytes(w.b, wire), "a message sent is written wrongly")
	}
	s.Close()
	<-done
	sym.Cover("closed")
	_, ok := <-s.In()
	sym.Assert(!ok, "closing the stream does not close its channel")
	_, ok = <-s.Errs()
	sym.Assert(!ok, "closing the stream does not close its error channel")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines outlive the stream")
	sym.ObserveBytes("wire", w.b)
}

// undecodable is a chunk that is no control message: any when all is set, else one of two kinds.
func undecodable(all bool) *chunk.Chunk {
	if !all {
		n := sym.Choose("short", 2)
		return chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(4 - 2*n), TypeId: byte(9 - 6*n)}}, make([]byte, 4-2*n))
	}
	n := sym.Choose("len", 6)
	c := anyChunk(2, n)
	t := c.Header.MessageHeader.TypeId
	if n == 5 {
		sym.Assume(sym.Or(t == 0, t > 6))
	} else if n >= 2 {
		sym.Assume(sym.Or(t == 0, t > 6, sym.And(n < 4, t != 4), sym.And(n < 5, t == 6)))
	}
	return c
}

// Both directions at once under every schedule.
//
//verif:property C18
//verif:bounds up to 2 arriving chunks, decodable or not, and up to 2 messages sent, the first of which may fail to encode or to be written, from their own goroutines, then the end of input and a close; every schedule
//verif:mode full race noobs
//verif:shards 3 3
func ControlStreamAnySchedule() {
	nin, nout := sym.Choose("nin", 3), sym.Choose("nout", 3)
	bad := sym.Choose("bad", 4)
	in := source{make(chan *chunk.Chunk)}
	w := &buf{}
	var out chunk.Writer = chunk.NewWriter(w, 128)
	if bad == 3 {
		out = &failOnce{Writer: out}
	}
	s := control.NewStream(in, out, control.NewParser(), control.NewChunker())
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	go func() {
		for i := 0; i < nin; i++ {
			t := byte(3)
			if bad == 1 && i == 0 {
				t = 9
			}
			in.ch <- chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: 4, TypeId: t}}, []byte{0, 0, 0, byte(i)})
		}
		close(in.ch)
	}()
	sent := make(chan struct{})
	var wire []byte
	for i := 0; i < nout; i++ {
		if !(bad >= 2 && i == 0) {
			wire = append(wire, wireControl(4, []byte{0, 0, 1, byte(i)})...)
		}
	}
	go func() {
		for i := 0; i < nout; i++ {
			if bad == 2 && i == 0 {
				s.Out() <- badControl{errSource}
			} else {
				s.Out() <- &control.WindowAckSize{WindowAckSize: uint32(256 + i)}
			}
		}
		close(sent)
	}()
	next, errs := 0, 0
	wantErrs := 0
	if bad == 1 && nin > 0 {
		wantErrs, next = 1, 1
	}
	if bad >= 2 && nout > 0 {
		wantErrs = 1
	}
	for next < nin || errs < wantErrs {
		select {
		case c := <-s.In():
			a, ok := c.(*control.Acknowledgement)
			sym.Assert(ok && a.SequenceNumber == uint32(next), "arriving messages are lost, repeated or reordered")
			next++
		case err := <-s.Errs():
			sym.Assert(err != nil, "the stream ends by itself")
			errs++
			sym.Assert(errs <= wantErrs, "an error is reported for no reason")
		}
	}
	<-sent
	s.Close()
	<-done
	sym.Cover("closed")
	_, ok := <-s.In()
	sym.Assert(!ok, "a message is delivered twice, or the channel is not closed")
	_, ok = <-s.Errs()
	sym.Assert(!ok, "an error is reported twice, or the channel is not closed")
	sym.Assert(len(w.b) == len(wire), "something other than the messages sent is written")
	sym.Assert(eqBytes(w.b, wire), "messages sent are written wrongly or out of order")
}

// failOnce is a writer whose first message cannot be written.
type failOnce struct {
	chunk.Writer
	failed bool
}

func (w *failOnce) Write(c *chunk.Chunk) error {
	if !w.failed {
		w.failed = true
		return errSource
	}
	return w.Writer.Write(c)
}
