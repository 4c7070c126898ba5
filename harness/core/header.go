package core

import (
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// Encode and decode a basic header with arbitrary format and id.
//
//verif:property C01
//verif:bounds every format 0..3 and every chunk stream id 2..65599; bytes after the header arbitrary; receiver state arbitrary
func BasicHeaderRoundTrip() {
	id := sym.Uint32("id")
	f := sym.Byte("fmt")
	sym.Assume(sym.And(id >= 2, id <= 65599, f <= 3))
	w := &buf{}
	h := chunk.BasicHeader{FormatId: f, StreamId: id}
	sym.Assert(h.Write(w) == nil, "writing a basic header to a working transport fails")
	sym.Assert(sym.And(h.FormatId == f, h.StreamId == id), "writing a basic header changes it")
	n := len(w.b)
	switch {
	case id < 64:
		sym.Cover("one byte")
		sym.Assert(n == 1, "the basic header of an id below 64 is not one byte long")
	case id < 320:
		sym.Cover("two bytes")
		sym.Assert(n == 2, "the basic header of an id in 64..319 is not two bytes long")
	default:
		sym.Cover("three bytes")
		sym.Assert(n == 3, "the basic header of an id above 319 is not three bytes long")
	}
	sym.Known("csid63", id == 63)
	sym.Assert(eqBytes(w.b, wireBasic(f, id)), "the basic header is not encoded as format, form and id minus 64")
	r := &src{b: cat(w.b, sym.Bytes("tail", 3))}
	got := chunk.BasicHeader{FormatId: sym.Byte("f0"), StreamId: sym.Uint32("i0")}
	sym.Assert(got.Read(r) == nil, "decoding an encoded basic header fails")
	sym.Assert(r.pos == n, "the decoder takes a different number of bytes than were written")
	sym.Assert(sym.And(got.FormatId == f, got.StreamId == id), "the decoded basic header differs from the encoded one")
	sym.Observe("id", uint64(got.StreamId))
	sym.ObserveBytes("wire", w.b)
}

// Decode arbitrary bytes as a basic header and compare with the wire format.
//
//verif:property C01
//verif:bounds every string of 3 bytes
func BasicHeaderDecode() {
	b := sym.Bytes("b", 3)
	r := &src{b: b}
	got := chunk.BasicHeader{FormatId: sym.Byte("f0"), StreamId: sym.Uint32("i0")}
	sym.Assert(got.Read(r) == nil, "decoding a complete basic header fails")
	sym.Assert(got.FormatId == b[0]>>6, "the decoded format is not the top two bits")
	switch b[0] & 63 {
	case 0:
		sym.Cover("two")
		sym.Assert(sym.And(r.pos == 2, got.StreamId == uint32(b[1])+64), "a two byte basic header is decoded wrongly")
	case 63:
		sym.Cover("three")
		sym.Assert(sym.And(r.pos == 3, got.StreamId == uint32(b[1])<<8+uint32(b[2])+64), "a three byte basic header is decoded wrongly")
	default:
		sym.Cover("one")
		sym.Assert(sym.And(r.pos == 1, got.StreamId == uint32(b[0]&63)), "a one byte basic header is decoded wrongly")
	}
	sym.Observe("id", uint64(got.StreamId))
}

// Encode and decode a whole chunk header of each format.
//
//verif:property C02
//verif:bounds every format, every 24-bit timestamp and length, every type, message stream id, extended timestamp and chunk stream id 2..65599; receiver zero
func HeaderRoundTrip() {
	f := byte(sym.Choose("fmt", 4))
	id := sym.Uint32("id")
	sym.Assume(sym.And(id >= 2, id <= 65599, id != 63))
	ts, length := sym.Uint32("ts"), sym.Uint32("len")
	sym.Assume(sym.And(ts <= 0xffffff, length <= 0xffffff))
	typ, sid, ext := sym.Byte("typ"), sym.Uint32("sid"), sym.Uint32("ext")
	if f == 3 {
		// the format carries no timestamp field
		sym.Assume(ts != 0xffffff)
	}
	h := chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: f, StreamId: id},
		MessageHeader:     chunk.MessageHeader{FormatId: f, Timestamp: ts, TimestampDelta: sym.Bool("delta"), Length: length, TypeId: typ, StreamId: sid},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: ext},
	}
	before := h
	w := &buf{}
	sym.Assert(h.Write(w) == nil, "writing a header to a working transport fails")
	sym.Assert(sameHeader(&h, &before), "writing a header changes it")
	want := cat(wireBasic(f, id), wireMessage(f, ts, length, typ, sid))
	if ts == 0xffffff {
		want = append(want, beBytes(uint64(ext), 4)...)
		sym.Cover("extended")
	} else {
		sym.Cover("plain")
	}
	sym.Assert(len(w.b) == len(want), "the header has the wrong length on the wire")
	sym.Assert(eqBytes(w.b, want), "the header has the wrong bytes on the wire")
	r := &src{b: cat(w.b, sym.Bytes("tail", 4))}
	var got chunk.Header
	sym.Assert(got.Read(r) == nil, "decoding an encoded header fails")
	sym.Assert(r.pos == len(want), "the decoder takes a different number of bytes than were written")
	exp := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: id}, MessageHeader: chunk.MessageHeader{FormatId: f}}
	if f <= 2 {
		exp.MessageHeader.Timestamp = ts
		exp.MessageHeader.TimestampDelta = f != 0
		if ts == 0xffffff {
			exp.ExtendedTimestamp.Delta = ext
		}
	}
	if f <= 1 {
		exp.MessageHeader.Length, exp.MessageHeader.TypeId = length, typ
	}
	if f == 0 {
		exp.MessageHeader.StreamId = sid
	}
	sym.Assert(sameHeader(&got, &exp), "the decoded header differs from the encoded one")
	sym.ObserveBytes("wire", w.b)
	sym.Observe("ts", uint64(got.MessageHeader.Timestamp))
}

// A timestamp or length that does not fit its 24 bits still leaves one whole header.
//
//verif:property C02
//verif:bounds formats 0..2, every timestamp above 0xffffff whose low 24 bits are not 0xffffff, every length, chunk stream ids 2..62
func WideHeader() {
	f := byte(sym.Choose("fmt", 3))
	h := chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: f, StreamId: sym.Uint32("id")},
		MessageHeader:     chunk.MessageHeader{FormatId: f, Timestamp: sym.Uint32("ts"), Length: sym.Uint32("len"), TypeId: sym.Byte("typ"), StreamId: sym.Uint32("sid")},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: sym.Uint32("ext")},
	}
	m := h.MessageHeader
	sym.Assume(sym.And(h.BasicHeader.StreamId >= 2, h.BasicHeader.StreamId <= 62, m.Timestamp > 0xffffff, m.Timestamp&0xffffff != 0xffffff))
	w := &buf{}
	sym.Assert(h.Write(w) == nil, "writing a header to a working transport fails")
	want, n, ok := decodeHeader(cat(w.b, make([]byte, 18)))
	sym.Assert(ok && n == len(w.b), "what is written for a header is not one header")
	sym.Assert(want.MessageHeader.TypeId == m.TypeId || f == 2, "a header is written with another type")
	sym.Cover("done")
	sym.ObserveBytes("wire", w.b)
}

// decodeHeader is the reference decoder: the header, the number of bytes it takes and
// whether b holds all of it.
func decodeHeader(b []byte) (h chunk.Header, n int, ok bool) {
	need := func(k int) []byte {
		if len(b) < n+k {
			ok = false
			return nil
		}
		n += k
		return b[n-k : n]
	}
	ok = true
	p := need(1)
	if !ok {
		return
	}
	h.BasicHeader.FormatId = p[0] >> 6
	switch p[0] & 63 {
	case 0:
		if p = need(1); !ok {
			return
		}
		h.BasicHeader.StreamId = uint32(be(p)) + 64
	case 63:
		if p = need(2); !ok {
			return
		}
		h.BasicHeader.StreamId = uint32(be(p)) + 64
	default:
		h.BasicHeader.StreamId = uint32(p[0] & 63)
	}
	f := int(sym.Concretize(uint64(h.BasicHeader.FormatId)))
	h.MessageHeader.FormatId = byte(f)
	if p = need(messageLen[f]); !ok {
		return
	}
	if f <= 2 {
		h.MessageHeader.Timestamp = uint32(be(p[:3]))
		h.MessageHeader.TimestampDelta = f != 0
	}
	if f <= 1 {
		h.MessageHeader.Length = uint32(be(p[3:6]))
		h.MessageHeader.TypeId = p[6]
	}
	if f == 0 {
		h.MessageHeader.StreamId = uint32(le(p[7:]))
	}
	if f <= 2 && h.MessageHeader.Timestamp == 0xffffff {
		if p = need(4); !ok {
			return
		}
		h.ExtendedTimestamp.Delta = uint32(be(p))
	}
	return
}

// Decode arbitrary bytes as a chunk header and compare with the reference decoder.
//
//verif:property C02
//verif:bounds every string of 18 bytes (the longest header)
func HeaderDecode() {
	b := sym.Bytes("b", 18)
	want, n, _ := decodeHeader(b)
	r := &src{b: b}
	var got chunk.Header
	sym.Assert(got.Read(r) == nil, "decoding a complete header fails")
	sym.Cover("decoded")
	sym.Assert(r.pos == n, "the decoder takes a different number of bytes than the header has")
	sym.Assert(sameHeader(&got, &want), "the decoded header differs from what the bytes mean")
	sym.Observe("n", uint64(r.pos))
}

// The parts of a header alone, with any receiver state: a format must set exactly its fields.
//
//verif:property C02
//verif:bounds every format, every string of 11 bytes, every previous state of the receiver
func MessageHeaderDecode() {
	f := byte(sym.Choose("fmt", 4))
	b := sym.Bytes("b", 11)
	h := chunk.MessageHeader{FormatId: f}
	r := &src{b: b}
	sym.Assert(h.Read(r) == nil, "decoding a complete message header fails")
	sym.Assert(r.pos == messageLen[f], "the message header decoder takes the wrong number of bytes")
	exp := chunk.MessageHeader{FormatId: f}
	if f <= 2 {
		exp.Timestamp, exp.TimestampDelta = uint32(be(b[:3])), f != 0
	}
	if f <= 1 {
		exp.Length, exp.TypeId = uint32(be(b[3:6])), b[6]
	}
	if f == 0 {
		exp.StreamId = uint32(le(b[7:]))
	}
	sym.Assert(sameMessageHeader(&h, &exp), "the decoded message header differs from what the bytes mean")
	sym.Assert(h.HasExtendedTimestamp() == (h.Timestamp == 0xffffff), "the extended timestamp is not announced by 0xffffff")

	var e chunk.ExtendedTimestamp
	r2 := &src{b: b}
	sym.Assert(e.Read(r2) == nil && r2.pos == 4, "decoding an extended timestamp fails or takes other than four bytes")
	sym.Assert(e.Delta == uint32(be(b[:4])), "the extended timestamp is decoded wrongly")
	w := &buf{}
	sym.Assert(e.Write(w) == nil, "writing an extended timestamp fails")
	sym.Assert(eqBytes(w.b, b[:4]), "the extended timestamp is encoded wrongly")
	sym.Cover("done")
	sym.Observe("ts", uint64(h.Timestamp))
}

// An unknown format is an error, whatever follows.
//
//verif:property C02
//verif:bounds every format value 4..255 set on a message header
func UnknownFormat() {
	f := sym.Byte("fmt")
	sym.Assume(f > 3)
	h := chunk.MessageHeader{FormatId: f}
	r := &src{b: sym.Bytes("b", 11)}
	sym.Assert(h.Read(r) == chunk.ErrUnknownFormatId, "an unknown format is not rejected")
	sym.Assert(r.pos == 0, "a message header of unknown format takes bytes")
	sym.Cover("rejected")
}

// endErr is how a source of a truncated encoding ends.
func endErr(n int) error {
	k := sym.Choose("end", 4)
	if k == 0 {
		return nil
	}
	return failureOf(3*n + k)
}

// eitherEnd is the end of a source of n bytes, or one failure.
func eitherEnd(n int) error {
	if sym.Choose("end", 2) == 0 {
		return nil
	}
	return failureOf(n)
}

// checkCut judges a decoder that was given a cut encoding or a complete one.
func checkCut(err error, r *src, complete bool, n int) {
	if complete {
		sym.Cover("complete")
		sym.Assert(err == nil, "decoding a complete encoding fails")
		sym.Assert(r.pos == n, "the decoder takes more or fewer bytes than the encoding has")
		return
	}
	sym.Cover("cut")
	sym.Assert(err != nil, "decoding a truncated encoding succeeds")
	if r.end != nil {
		sym.Assert(err == r.end, "a failure of the source is not handed back unchanged")
	}
	sym.Assert(r.pos <= len(r.b), "more bytes taken than there are")
}

// A chunk header cut off anywhere is an error.
//
//verif:property C03
//verif:bounds every byte string of 0..18 bytes; the source ends with io.EOF or one of three other errors
func HeaderCut() {
	n := sym.Choose("n", 19)
	b := sym.Bytes("b", n)
	_, k, ok := decodeHeader(b)
	r := &src{b: b, end: endErr(n)}
	var h chunk.Header
	err := h.Read(r)
	checkCut(err, r, ok, k)
	sym.Observe("ok", boolNum(err == nil))
}

func boolNum(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// A control message body cut off anywhere is an error.
//
//verif:property C03
//verif:bounds every control message type, every body of 0..8 bytes (events with their data), both kinds of ending
func ControlCut() {
	kind := sym.Choose("kind", 6)
	n := sym.Choose("n", 9)
	r := &src{b: sym.Bytes("b", n), end: endErr(n)}
	c := newControl(kind)
	err := c.Read(r)
	if kind == 3 {
		// events run to the end of their message, so any failure but the end is an error
		if r.end != nil {
			sym.Assert(err == r.end, "an event's source failure is not handed back unchanged")
		} else {
			sym.Assert((err == nil) == (n >= 2), "an event without its two byte type must be an error, and any other must not")
		}
		sym.Cover("event")
	} else {
		checkCut(err, r, n >= controlLen[kind], controlLen[kind])
	}
	sym.Observe("ok", boolNum(err == nil))
}

// Handshake packets and the version byte cut off anywhere are errors.
//
//verif:property C03
//verif:bounds packets cut after 0..9, 1535 and 1536 bytes (content arbitrary) and complete with more to follow; version byte present or not
func HandshakeCut() {
	cuts := []int{0, 1, 3, 4, 5, 7, 8, 9, 700, 1535, 1536, 1540}
	n := cuts[sym.Choose("n", len(cuts))]
	r := &src{b: sym.Bytes("b", n), end: endErr(n)}
	p := new(handshake.AckPacket)
	err := p.Read(r)
	checkCut(err, r, n >= 1536, 1536)
	if err == nil {
		sym.Assert(sym.And(uint64(p.Time1) == be(r.b[:4]), uint64(p.Time2) == be(r.b[4:8])), "the packet's times are decoded wrongly")
		sym.Assert(eqBytes(p.Payload[:], r.b[8:1536]), "the packet's challenge is decoded wrongly")
		w := &buf{}
		sym.Assert(p.Write(w) == nil, "writing a packet fails")
		sym.Assert(eqBytes(w.b, r.b[:1536]), "the packet is not written as it was read")
	}

	m := sym.Choose("m", 3)
	v := &src{b: sym.Bytes("v", m), end: endErr(m)}
	if m > 0 {
		sym.Assume(v.b[0] == handshake.SupportedRTMPVersion)
	}
	err = handshake.NewVersionSequence().Read(v)
	checkCut(err, v, m > 0, 1)
	sym.Observe("ok", boolNum(err == nil))
}

// twoWays decodes the same bytes from a source that hands them out whole and from one
// that splits them, and compares success, consumption and (through same) values.
func twoWays(b []byte, end error, budget int, read func(r io.Reader) error, again func(r io.Reader) error, same func() bool) {
	r1 := &src{b: b, end: end}
	err1 := read(r1)
	var err2 error
	pos2 := 0
	if sym.Choose("bytereader", 2) == 0 {
		r2 := &seg{b: b, end: end, budget: budget}
		err2 = again(r2)
		pos2 = r2.pos
	} else {
		r2 := &segB{seg{b: b, end: end, budget: budget}}
		err2 = again(r2)
		pos2 = r2.pos
	}
	sym.Assert((err1 == nil) == (err2 == nil), "success depends on how the source splits the bytes")
	if err1 == nil {
		sym.Cover("decoded")
		sym.Assert(r1.pos == pos2, "the number of bytes taken depends on how the source splits them")
		sym.Assert(same(), "the decoded value depends on how the source splits the bytes")
	} else {
		sym.Cover("failed")
		if end != nil && err1 == end {
			sym.Assert(err1 == err2, "the error depends on how the source splits the bytes")
		}
	}
	sym.Observe("ok", boolNum(err1 == nil))
	sym.Observe("pos", uint64(pos2))
}

// Chunk headers under every segmentation.
//
//verif:property C04
//verif:bounds every byte string of 0..18 bytes, at most 2 (thorough: 3) short, empty or ending reads at any places; sources with and without ReadByte
//verif:shards 19 19
func HeaderSplit() {
	n := sym.Choose("n", 19)
	b := sym.Bytes("b", n)
	var h1, h2 chunk.Header
	twoWays(b, eitherEnd(n), sym.Param(2, 3), h1.Read, h2.Read, func() bool { return sameHeader(&h1, &h2) })
}

// Control message bodies under every segmentation.
//
//verif:property C04
//verif:bounds every control message type, every body of 0..6 bytes, at most 3 (thorough: 4) short, empty or ending reads at any places
func ControlSplit() {
	kind := sym.Choose("kind", 6)
	b := sym.Bytes("b", sym.Choose("n", 7))
	c1, c2 := newControl(kind), newControl(kind)
	twoWays(b, eitherEnd(len(b)), sym.Param(3, 4), c1.Read, c2.Read, func() bool { return sameControl(c1, c2) })
}

func sameControl(a, b control.Control) bool {
	switch x := a.(type) {
	case *control.SetChunkSize:
		y, ok := b.(*control.SetChunkSize)
		return ok && x.ChunkSize() == y.ChunkSize()
	case *control.AbortMessage:
		y, ok := b.(*control.AbortMessage)
		return ok && x.ChunkStreamId == y.ChunkStreamId
	case *control.Acknowledgement:
		y, ok := b.(*control.Acknowledgement)
		return ok && x.SequenceNumber == y.SequenceNumber
	case *control.Event:
		y, ok := b.(*control.Event)
		return ok && x.Type == y.Type && eqBytes(x.Body, y.Body)
	case *control.WindowAckSize:
		y, ok := b.(*control.WindowAckSize)
		return ok && x.WindowAckSize == y.WindowAckSize
	case *control.SetPeerBandwidth:
		y, ok := b.(*control.SetPeerBandwidth)
		return ok && x.AckWindowSize == y.AckWindowSize && x.LimitType == y.LimitType
	}
	return false
}

// Payload parts under every segmentation.
//
//verif:property C04
//verif:bounds sources of 0..6 bytes, parts of 0..6 bytes, at most 3 (thorough: 5) short, empty or ending reads at any places
func PayloadSplit() {
	b := sym.Bytes("b", sym.Choose("n", 7))
	k := sym.Choose("k", 7)
	h := &chunk.Header{MessageHeader: chunk.MessageHeader{Length: 6}}
	b1, b2 := chunk.NewBuilder(h), chunk.NewBuilder(h)
	read := func(x *chunk.Builder) func(io.Reader) error {
		return func(r io.Reader) error { _, err := x.Read(r, k); return err }
	}
	twoWays(b, eitherEnd(len(b)), sym.Param(3, 5), read(b1), read(b2), func() bool {
		return b1.BytesLeft() == b2.BytesLeft() && eqBytes(b1.Build().Data, b2.Build().Data)
	})
	sym.Assert(b1.BytesLeft() == b2.BytesLeft(), "the count of missing bytes depends on how the source splits the bytes")
}

// The version byte under every segmentation.
//
//verif:property C04
//verif:bounds sources of 0..2 bytes, at most 4 short, empty or ending reads at any places
func VersionSplit() {
	v := sym.Bytes("v", sym.Choose("m", 3))
	twoWays(v, eitherEnd(len(v)), 4, handshake.NewVersionSequence().Read, handshake.NewVersionSequence().Read, func() bool { return true })
}

// Handshake packets under segmentation.
//
//verif:property C04
//verif:bounds packets of 1535, 1536 and 1538 bytes (content arbitrary), one read cut at any place up to byte 11, an empty read at the cut or not, the last bytes with or without the end of the stream
func PacketSplit() {
	sizes := []int{1535, 1536, 1538}
	n := sizes[sym.Choose("n", len(sizes))]
	b := sym.Bytes("b", n)
	p1, p2 := new(handshake.AckPacket), new(handshake.AckPacket)
	r1, r2 := &src{b: b}, &cutsrc{b: b, cut: sym.Choose("cut", 12), zero: sym.Choose("zero", 2) == 1, last: sym.Choose("last", 2) == 1}
	e1, e2 := p1.Read(r1), p2.Read(r2)
	sym.Assert((e1 == nil) == (n >= 1536), "a packet is not decoded, or decoded from too few bytes")
	sym.Assert((e1 == nil) == (e2 == nil), "success depends on how the source splits the bytes")
	if e1 == nil {
		sym.Cover("packet")
		sym.Assert(r1.pos == r2.pos, "the number of bytes taken depends on how the source splits them")
		sym.Assert(sym.And(p1.Time1 == p2.Time1, p1.Time2 == p2.Time2, eqBytes(p1.Payload[:], p2.Payload[:])), "the packet depends on how the source splits the bytes")
	}
	sym.Observe("pos", uint64(r2.pos))
}

// cutsrc never returns bytes from both sides of cut in one read.
type cutsrc struct {
	b          []byte
	pos, cut   int
	zero, last bool
}

func (r *cutsrc) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos == len(r.b) {
		return 0, io.EOF
	}
	if r.zero && r.pos == r.cut {
		r.zero = false
		return 0, nil
	}
	hi := len(r.b)
	if r.pos < r.cut && r.cut < hi {
		hi = r.cut
	}
	n := copy(p, r.b[r.pos:hi])
	r.pos += n
	if r.last && r.pos == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}
