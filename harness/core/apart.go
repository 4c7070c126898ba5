package core

import (
	"crypto/rand"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/spec"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// zeroRand is a source of zeroes, which any number of goroutines may use.
type zeroRand struct{}

func (zeroRand) Read(b []byte) (int, error) { clear(b); return len(b), nil }

const tasks = 11

// task does the work of one connection with objects of its own, on the data d (12 bytes)
// and id. It returns a function which checks what came out and may run much later.
func task(kind int, id uint32, f byte, d []byte) func() {
	h := &chunk.Header{
		BasicHeader:   chunk.BasicHeader{FormatId: f, StreamId: id},
		MessageHeader: chunk.MessageHeader{FormatId: f, Timestamp: 0xffffff, TypeId: d[0]},
	}
	h.ExtendedTimestamp.Delta = uint32(be(d[1:5]))
	m := &h.MessageHeader
	if f <= 1 {
		m.Length = 5
	}
	m.TimestampDelta = f == 1 || f == 2
	if f == 0 {
		m.StreamId = uint32(be(d[5:9]))
	}
	if f >= 2 {
		m.TypeId = 0
	}
	if f == 3 {
		m.Timestamp, h.ExtendedTimestamp.Delta = 0, 0
	}
	switch kind {
	case 0: // headers
		w := &buf{}
		err := h.Write(w)
		got := new(chunk.Header)
		err2 := got.Read(&src{b: append([]byte(nil), w.b...)})
		return func() {
			sym.Assert(err == nil && err2 == nil, "a header cannot be written or read")
			sym.Assert(eqBytes(w.b, wireHeader(h)), "the encoding of a header holds parts of another's")
			sym.Assert(sameHeader(got, h), "a decoded header holds parts of another")
		}
	case 1: // writer
		w := &buf{}
		cw := chunk.NewWriter(w, 2)
		err := cw.Write(chunk.New(h, d[:5]))
		cw.SetWriteSize(3)
		err2 := cw.Write(chunk.New(h, d[5:10]))
		return func() {
			sym.Assert(err == nil && err2 == nil, "a message cannot be written")
			sym.Assert(eqBytes(w.b, cat(wireWhole(h, d[:5], 2), wireWhole(h, d[5:10], 3))), "a written message holds parts of another's")
			sym.Assert(cw.WriteSize() == 3, "writers share a write size")
		}
	case 2: // reader
		h0 := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{Length: 3, TypeId: 8, StreamId: uint32(d[0])}}
		r := chunk.NewReader(&src{b: cat(wireWhole(h0, d[:3], 2), wireWhole(h0, d[3:6], 2))}, 2, chunk.NewNormalizer())
		go r.Recv()
		a := <-r.Chunks()
		b := <-r.Chunks()
		r.SetReadSize(int(id))
		r.Close()
		return func() {
			sym.Assert(a != nil && b != nil, "a message is lost")
			sym.Assert(sym.And(sameHeader(a.Header, h0), sameHeader(b.Header, h0)), "a received header holds parts of another")
			sym.Assert(sym.And(eqBytes(a.Data, d[:3]), eqBytes(b.Data, d[3:6])), "a received message holds parts of another")
			sym.Assert(r.ReadSize() == int(id), "readers share a chunk size")
		}
	case 3: // control messages
		k := int(f) // 0..3
		if id > 9 {
			k = 4 + int(f)%2
		}
		n := controlLen[k]
		if k == 3 {
			n += 3
		}
		body := append([]byte(nil), d[:n]...)
		if k == 0 {
			body[0] = 0
		}
		hc := &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{Length: uint32(n), TypeId: byte(k + 1)}}
		c, err := control.NewParser().Parse(chunk.New(hc, body))
		var back *chunk.Chunk
		var err2 error
		if err == nil {
			back, err2 = control.NewChunker().Chunk(c)
		}
		return func() {
			sym.Assert(err == nil && err2 == nil && c.TypeId() == byte(k+1), "a control message cannot be parsed or made a chunk")
			w := &buf{}
			sym.Assert(c.Write(w) == nil && len(w.b) == n && eqBytes(w.b, body), "a control message holds parts of another")
			sym.Assert(sym.And(sameHeader(back.Header, hc), eqBytes(back.Data, body)), "the chunk of a control message holds parts of another")
		}
	case 4: // handshake packets
		var a handshake.AckPacket
		a.Time1, a.Time2 = uint32(be(d[:4])), uint32(be(d[4:8]))
		copy(a.Payload[:], d)
		copy(a.Payload[handshake.PayloadLen-12:], d)
		w := &buf{}
		err := a.Write(w)
		got := new(handshake.AckPacket)
		err2 := got.Read(&src{b: append([]byte(nil), w.b...)})
		return func() {
			sym.Assert(err == nil && err2 == nil && len(w.b) == packet, "a handshake packet cannot be written or read")
			sym.Assert(sym.And(eqBytes(w.b[:8], d[:8]), eqBytes(w.b[8:20], d), eqBytes(w.b[packet-12:], d)), "the encoding of a handshake packet holds parts of another's")
			sym.Assert(sym.And(got.Time1 == a.Time1, got.Time2 == a.Time2, eqBytes(got.Payload[:], a.Payload[:])), "a decoded handshake packet holds parts of another")
		}
	case 5: // builder
		b := chunk.NewBuilder(h)
		left := int(m.Length)
		b.Append(append(make([]byte, 0, 64), d[:1]...))
		_, err := b.Read(&src{b: d[1:3]}, 2)
		c := b.Build()
		b.AddLeft(int(id))
		return func() {
			sym.Assert(left != 5 || err == nil, "a part cannot be added")
			sym.Assert(c.Header == h && eqBytes(c.Data, d[:3]), "a built message holds parts of another")
			sym.Assert(b.BytesLeft() == left-3+int(id), "builders share a count")
		}
	case 6: // normaliser
		n := chunk.NewNormalizer()
		h0 := &chunk.Header{
			BasicHeader:   chunk.BasicHeader{StreamId: id},
			MessageHeader: chunk.MessageHeader{Length: uint32(d[0]), TypeId: d[1], StreamId: uint32(d[2])},
		}
		first := *h0
		want := completed(h, h0)
		a := n.Normalize(h0)
		b := n.Normalize(h)
		return func() {
			sym.Assert(sameHeader(a, &first), "a complete header is altered")
			sym.Assert(sameMessageHeader(&b.MessageHeader, &want.MessageHeader), "a header is completed from another normaliser's")
		}
	case 7: // parser
		rd := newScripted(item{c: mkChunk(id, d[0])}, item{c: mkChunk(id+1, d[1])}, item{err: errSource})
		p := chunk.NewParser(rd)
		s, err := p.Stream(id, id+1)
		s3, err3 := p.Stream(id + 2)
		go p.Recv()
		a := <-s.In()
		b := <-s.In()
		e := <-p.Errs()
		p.Close()
		_, open := <-s3.In()
		return func() {
			sym.Assert(err == nil && err3 == nil, "a stream of one parser is taken by another")
			sym.Assert(e == errSource && !open, "an error is lost")
			if a != nil && a.StreamId() == id+1 {
				a, b = b, a
			}
			sym.Assert(a != nil && b != nil && a.StreamId() == id && b.StreamId() == id+1, "a message reaches another parser's stream")
			sym.Assert(sym.And(a.Data[0] == d[0], b.Data[0] == d[1]), "a message reaches another parser's stream")
		}
	case 8: // control stream
		in := newSource(mkControl(3, d[:4]), mkControl(9, d[:4]))
		w := &recorder{}
		s := control.NewStream(in, w, control.NewParser(), control.NewChunker())
		go s.Recv()
		c := <-s.In()
		e := <-s.Errs()
		s.Out() <- &control.WindowAckSize{WindowAckSize: uint32(be(d[4:8]))}
		s.Close()
		return func() {
			a, ok := c.(*control.Acknowledgement)
			sym.Assert(ok && uint64(a.SequenceNumber) == be(d[:4]), "a control message reaches another stream")
			sym.Assert(e == control.UnknownControlType(9), "an error reaches another stream")
			sym.Assert(len(w.got) == 1 && eqBytes(w.got[0].Data, d[4:8]), "an outgoing control message is written elsewhere")
		}
	case 9: // integers
		w := &buf{}
		spec.PutUint8(d[0], w)
		spec.PutUint16(uint16(be(d[1:3])), w)
		spec.PutUint24(uint32(be(d[3:6])), w)
		spec.PutUint32(uint32(be(d[6:10])), w)
		spec.PutUint16(uint16(be(d[10:12])), w)
		got, err := spec.ReadBytes(&src{b: d}, 12)
		return func() {
			sym.Assert(err == nil && eqBytes(w.b, d) && eqBytes(got, d), "an integer holds parts of another")
		}
	default: // handshake
		p := &peer{pre: make([]byte, 1+packet+8), at: -1, limit: -1, end: errSource, room: 1 << 20}
		p.pre[0] = 3
		copy(p.pre[9:], d)
		copy(p.pre[1:], d[:4])
		err := handshake.With(&handshake.Param{Conn: p}).Handshake()
		return func() {
			sym.Assert(err == nil && p.pos == whole && len(p.out) == whole, "a handshake fails because of another")
			s2 := p.out[1+packet:]
			sym.Assert(sym.And(eqBytes(s2[:4], d[:4]), eqBytes(s2[8:20], d)), "a handshake answers with parts of another's")
		}
	}
}

// newSource is a chunk stream of the given chunks, which then ends.
func newSource(cs ...*chunk.Chunk) chunk.Stream {
	s := make(given, len(cs))
	for _, c := range cs {
		s <- c
	}
	return s
}

type given chan *chunk.Chunk

func (s given) In() <-chan *chunk.Chunk { return s }

func mkControl(typ byte, data []byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: 2}, MessageHeader: chunk.MessageHeader{TypeId: typ, Length: uint32(len(data))}}, data)
}

// recorder keeps what is written to it.
type recorder struct{ got []*chunk.Chunk }

func (w *recorder) Write(c *chunk.Chunk) error { w.got = append(w.got, c); return nil }
func (w *recorder) WriteSize() int             { return 128 }
func (w *recorder) SetWriteSize(int)           {}

var apartIDs = [3]uint32{4, 64, 400}

// The work of one connection leaves what another has got alone.
//
//verif:property C33
//verif:bounds any two of 11 kinds of work (headers, writer, reader, control messages and streams, handshake, builder, normaliser, parser, integers), one after the other with objects of their own, arbitrary data, all formats and chunk stream ids of all three forms; the results looked at when both are done, the first ones also before the second starts
//verif:steps 40000000
//verif:shards 8 8
func ApartSequential() {
	rand.Reader = zeroRand{}
	a := sym.Choose("a", tasks)
	b := sym.Choose("b", tasks)
	f := byte(sym.Choose("fmt", 4))
	id := apartIDs[(a+b)%3]
	da, db := sym.Bytes("da", 12), sym.Bytes("db", 12)
	ca := task(a, id, f, append([]byte(nil), da...))
	ca()
	cb := task(b, id, (f+byte(a))%4, append([]byte(nil), db...))
	cb()
	ca()
	cc := task(a, id, f, append([]byte(nil), db...))
	cc()
	ca()
	sym.Cover("done")
}

// Connections work at the same time.
//
//verif:property C33
//verif:bounds two goroutines doing the same kind of work, each with objects of its own: headers, writer, control messages, handshake packets, builder, normaliser, integers and handshake; the second also two other kinds; every schedule
//verif:mode full race noobs
//verif:shards 4 4
func ApartConcurrent() {
	kinds := []int{0, 1, 3, 4, 5, 6, 9, 10}
	i := sym.Choose("kind", len(kinds))
	a := kinds[i]
	b := kinds[(i+sym.Choose("other", 3))%len(kinds)]
	f := byte(0)
	if a < 4 || a > 4 && a < 9 {
		f = byte(sym.Choose("fmt", 4))
	}
	rand.Reader = zeroRand{}
	da, db := sym.Bytes("da", 12), sym.Bytes("db", 12)
	done := make(chan func())
	go func() { done <- task(b, 70, f, db) }()
	ca := task(a, 70, f, da)
	cb := <-done
	ca()
	cb()
	sym.Cover("done")
}

// Connections with goroutines of their own work at the same time.
//
//verif:property C33
//verif:bounds two readers receiving two messages of two chunks each, or two control streams relaying both ways, each with objects of its own; every schedule
//verif:mode full race noobs
//verif:shards 2 2
func ApartLoops() {
	kind := []int{2, 8}[sym.Choose("kind", 2)]
	da, db := sym.Bytes("da", 12), sym.Bytes("db", 12)
	done := make(chan func())
	go func() { done <- task(kind, 70, 0, db) }()
	ca := task(kind, 70, 0, da)
	cb := <-done
	ca()
	cb()
	sym.Cover("done")
}
