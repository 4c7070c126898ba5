package core

import (
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// rawHeader is a header as it comes off the wire: only the fields its format carries.
func rawHeader(f byte, id uint32) *chunk.Header {
	h := &chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: id}}
	m := &h.MessageHeader
	m.FormatId = f
	if f <= 2 {
		m.Timestamp, m.TimestampDelta = sym.Uint32("ts"), f != 0
		h.ExtendedTimestamp.Delta = sym.Uint32("ext")
	}
	if f <= 1 {
		m.Length, m.TypeId = sym.Uint32("len"), sym.Byte("typ")
	}
	if f == 0 {
		m.StreamId = sym.Uint32("sid")
	}
	return h
}

// completed is the reference normalisation of h after last (nil if there is none).
func completed(h, last *chunk.Header) chunk.Header {
	out := *h
	if last == nil {
		return out
	}
	m, l := &out.MessageHeader, &last.MessageHeader
	switch h.BasicHeader.FormatId {
	case 3:
		*m = *l
		m.FormatId = 3
	case 2:
		m.Length, m.TypeId, m.StreamId = l.Length, l.TypeId, l.StreamId
	case 1:
		m.StreamId = l.StreamId
	}
	return out
}

// Every history of headers on chunk streams with arbitrary ids.
//
//verif:property C11
//verif:bounds every history of 3 (thorough: 4) headers of any format and fields with arbitrary 32-bit chunk stream ids
//verif:shards 16 16
func NormalizeHistory() {
	n := chunk.NewNormalizer()
	k := sym.Param(3, 4)
	fmts := sym.Choose("fmts", 1<<(2*k))
	var hist []chunk.Header
	for i := 0; i < k; i++ {
		f := byte(fmts>>(2*i)) & 3
		h := rawHeader(f, sym.Uint32("csid"))
		var last *chunk.Header
		for j := range hist {
			if hist[j].BasicHeader.StreamId == h.BasicHeader.StreamId {
				last = &hist[j]
			}
		}
		want := completed(h, last)
		before := make([]chunk.Header, len(hist))
		copy(before, hist)
		got := n.Normalize(h)
		sym.Assert(got != nil, "normalising yields no header")
		if last != nil {
			sym.Cover("has a predecessor")
		} else {
			sym.Cover("is the first")
		}
		sym.Assert(sym.And(got.BasicHeader.FormatId == f, got.BasicHeader.StreamId == h.BasicHeader.StreamId), "normalising changes the basic header")
		sym.Assert(got.MessageHeader.FormatId == f, "normalising changes the format in the message header")
		sym.Assert(sym.And(got.MessageHeader.Timestamp == want.MessageHeader.Timestamp, got.MessageHeader.TimestampDelta == want.MessageHeader.TimestampDelta), "the timestamp is neither the transmitted one nor the predecessor's")
		sym.Assert(sym.And(got.MessageHeader.Length == want.MessageHeader.Length, got.MessageHeader.TypeId == want.MessageHeader.TypeId), "the length or type is neither the transmitted one nor the predecessor's")
		sym.Assert(got.MessageHeader.StreamId == want.MessageHeader.StreamId, "the message stream id is neither the transmitted one nor the predecessor's")
		if f != 3 {
			sym.Assert(got.ExtendedTimestamp.Delta == want.ExtendedTimestamp.Delta, "normalising changes a transmitted extended timestamp")
		}
		hist = append(hist, want)
		sym.Observe("len", uint64(got.MessageHeader.Length))
		sym.Observe("sid", uint64(got.MessageHeader.StreamId))
	}
}

// A longer history on two chunk streams.
//
//verif:property C11
//verif:bounds every history of 5 (thorough: 6) headers of any format and fields on two chunk streams with arbitrary distinct ids
//verif:shards 32 64
func NormalizeTwoStreams() {
	n := chunk.NewNormalizer()
	k := sym.Param(5, 6)
	which := sym.Choose("which", 1<<k)
	var ids [2]uint32
	ids[0], ids[1] = sym.Uint32("a"), sym.Uint32("b")
	sym.Assume(ids[0] != ids[1])
	var last [2]*chunk.Header
	var norm []*chunk.Header
	var wants []chunk.Header
	for i := 0; i < k; i++ {
		s := which >> i & 1
		h := rawHeader(byte(sym.Choose("fmt", 4)), ids[s])
		want := completed(h, last[s])
		got := n.Normalize(h)
		sym.Assert(got != nil, "normalising yields no header")
		if got.BasicHeader.FormatId == 3 {
			want.ExtendedTimestamp = got.ExtendedTimestamp
		}
		sym.Assert(sameHeader(got, &want), "a header is not completed from the previous one on its chunk stream")
		last[s] = &want
		norm = append(norm, got)
		wants = append(wants, want)
	}
	sym.Cover("history")
	// headers handed out earlier do not change later
	for i := range norm {
		sym.Assert(sym.And(sameMessageHeader(&norm[i].MessageHeader, &wants[i].MessageHeader), norm[i].BasicHeader.StreamId == wants[i].BasicHeader.StreamId), "a header changes after it was normalised")
	}
	sym.Observe("sid", uint64(norm[k-1].MessageHeader.StreamId))
}

// Compressed headers on the wire, through a reader.
//
//verif:property C11
//verif:bounds 3 messages on two arbitrary chunk streams (ids below 63), formats 0..3, of 1 or 2 bytes at chunk size 128, sent back to back in every order
//verif:shards 8 8
func NormalizeWire() {
	which := sym.Choose("which", 8)
	var ids [2]uint32
	ids[0], ids[1] = sym.Uint32("a"), sym.Uint32("b")
	sym.Assume(sym.And(ids[0] != ids[1], ids[0] >= 2, ids[1] >= 2, ids[0] < 63, ids[1] < 63))
	var last [2]*chunk.Header
	var b []byte
	var want []msg
	for i := 0; i < 3; i++ {
		s := which >> i & 1
		n := 1 + i%2
		var h *chunk.Header
		if last[s] == nil {
			h = rawHeader(0, ids[s])
			h.MessageHeader.Length = uint32(n)
			sym.Assume(sym.And(h.MessageHeader.Timestamp < 0xffffff, h.MessageHeader.TypeId != 1))
		} else {
			f := byte(sym.Choose("fmt", 4))
			h = follow(last[s], f, uint32(n))
			sym.Assume(h.MessageHeader.Timestamp < 0xffffff)
			if f > 1 {
				n = int(sym.Concretize(uint64(h.MessageHeader.Length)))
			}
		}
		last[s] = h
		data := sym.Bytes("data", n)
		b = append(b, wireWhole(h, data, 128)...)
		want = append(want, msg{*h, data})
	}
	evs := readAll(chunk.NewReader(&src{b: b}, 128, chunk.NewNormalizer()), 3)
	sym.Cover("read")
	checkEvents(evs, want)
	observeEvents(evs)
}

// Every sequence of operations on a builder.
//
//verif:property C12
//verif:bounds every announced length, 3 (thorough: 4) operations: appending 0..2 bytes, reading 0..2 bytes from a source of 0..2 bytes that ends or fails, adjusting by any amount, building; no more bytes added than announced
//verif:shards 8 24
func BuilderOps() {
	h := anyHeader(0, sym.Uint32("length"))
	length := int(h.MessageHeader.Length)
	sym.Assume(length <= 0xffffff)
	hb := *h
	b := chunk.NewBuilder(h)
	sym.Assert(b.BytesLeft() == length, "a new builder does not miss the announced number of bytes")
	var all []byte
	left := length
	k := sym.Param(3, 4)
	type snap struct {
		c    *chunk.Chunk
		data []byte
	}
	var built []snap
	var parts [][]byte
	for i := 0; i < k; i++ {
		switch op := sym.Choose("op", 8); op {
		case 0, 1, 2: // append op bytes
			d := sym.Bytes("part", op)
			sym.Assume(left >= op)
			n, err := b.Append(d)
			sym.Assert(err == nil && n == op, "adding bytes that fit is reported as an error")
			all = append(all, d...)
			parts = append(parts, d)
			left -= op
			sym.Cover("append")
		case 3, 4, 5: // read 1 or 2 bytes from a source that has op-3
			want := 1 + sym.Choose("want", 2)
			have := op - 3
			s := &src{b: sym.Bytes("src", have), end: eitherEnd(1)}
			sym.Assume(left >= want)
			n, err := b.Read(s, want)
			if have >= want {
				sym.Assert(err == nil && n == want, "reading bytes that are there fails")
				sym.Assert(s.pos == want, "reading takes the wrong number of bytes")
				all = append(all, s.b[:want]...)
				left -= want
				sym.Cover("read")
			} else {
				sym.Assert(err != nil, "a short read is reported as success")
				if s.end != nil {
					sym.Assert(err == s.end, "the failure of the source is not the one returned")
				}
				sym.Cover("short read")
			}
		case 6: // adjust
			d := sym.Int("delta", -1000, 1000)
			sym.Assume(left+d >= 0)
			b.AddLeft(d)
			left += d
			sym.Cover("adjust")
		case 7:
			built = append(built, snap{b.Build(), append([]byte(nil), all...)})
			sym.Cover("build")
		}
		sym.Assert(b.BytesLeft() == left, "the count of missing bytes is not the announced length less the bytes added")
	}
	built = append(built, snap{b.Build(), append([]byte(nil), all...)})
	// what was built does not change with the parts or the builder
	for _, p := range parts {
		for i := range p {
			p[i] ^= 0xff
		}
	}
	b.Append([]byte{1, 2, 3})
	for _, s := range built {
		sym.Assert(s.c.Header == h && sameHeader(s.c.Header, &hb), "a built message does not carry the header the builder was created with")
		sym.Assert(len(s.c.Data) == len(s.data), "a built message has more or fewer bytes than were added")
		sym.Assert(eqBytes(s.c.Data, s.data), "a built message is not the concatenation of the parts, or changes later")
	}
	sym.ObserveBytes("data", built[len(built)-1].c.Data)
	sym.Observe("left", uint64(b.BytesLeft()))
}

// Longer sequences of fewer operations on a builder.
//
//verif:property C12
//verif:bounds every announced length of 20 and more, every sequence of 6 (thorough: 8) of: appending a byte, appending two, reading a byte, failing to read two, building
//verif:shards 5 25
func BuilderLongOps() {
	ops := sym.Choose("ops", 25)
	h := anyHeader(0, sym.Uint32("length"))
	length := int(h.MessageHeader.Length)
	sym.Assume(sym.And(length <= 0xffffff, length >= 20))
	b := chunk.NewBuilder(h)
	var all []byte
	left := length
	k := sym.Param(6, 8)
	var built []*chunk.Chunk
	var want [][]byte
	for i := 0; i < k; i++ {
		var op int
		switch i {
		case 0:
			op = ops % 5
		case 1:
			op = ops / 5
		default:
			op = sym.Choose("op", 5)
		}
		switch op {
		case 0, 1:
			d := sym.Bytes("part", op+1)
			n, err := b.Append(append([]byte(nil), d...))
			sym.Assert(err == nil && n == op+1, "adding bytes that fit is reported as an error")
			all = append(all, d...)
			left -= op + 1
			sym.Cover("append")
		case 2:
			s := &src{b: sym.Bytes("src", 2)}
			n, err := b.Read(s, 1)
			sym.Assert(err == nil && n == 1, "reading bytes that are there fails")
			all = append(all, s.b[0])
			left--
			sym.Cover("read")
		case 3:
			_, err := b.Read(&src{b: sym.Bytes("src", 1)}, 2)
			sym.Assert(err != nil, "a short read is reported as success")
			sym.Cover("short read")
		case 4:
			built = append(built, b.Build())
			want = append(want, append([]byte(nil), all...))
			sym.Cover("build")
		}
		sym.Assert(b.BytesLeft() == left, "the count of missing bytes is not the announced length less the bytes added")
	}
	built = append(built, b.Build())
	want = append(want, all)
	for i, c := range built {
		sym.Assert(c.Header == h, "a built message does not carry the header the builder was created with")
		sym.Assert(len(c.Data) == len(want[i]), "a built message has more or fewer bytes than were added")
		sym.Assert(eqBytes(c.Data, want[i]), "a built message is not the concatenation of the parts, or changes later")
	}
}

// Adding more than was announced is an error.
//
//verif:property C12
//verif:bounds announced lengths 0..3, one or two parts of 0..4 arbitrary bytes, appended or read
func BuilderTooMany() {
	length := sym.Choose("length", 4)
	b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(length)}})
	sum := 0
	for i := 0; i < 2; i++ {
		n := sym.Choose("n", 5)
		d := sym.Bytes("d", n)
		var err error
		if sym.Choose("read", 2) == 1 {
			_, err = b.Read(&src{b: d}, n)
		} else {
			_, err = b.Append(d)
		}
		sum += n
		if sum > length {
			sym.Cover("too many")
			sym.Assert(err != nil, "adding more bytes than announced is not reported")
			return
		}
		sym.Cover("fits")
		sym.Assert(err == nil, "adding bytes that fit is reported as an error")
	}
	sym.Assert(b.BytesLeft() == length-sum, "the count of missing bytes is wrong")
}

// Long parts.
//
//verif:property C12
//verif:bounds parts of 127..4097 arbitrary bytes, three of them, read or appended
//verif:steps 20000000
func BuilderBig() {
	sizes := []int{127, 128, 129, 255, 256, 1000, 4096, 4097}
	n := sizes[sym.Choose("n", len(sizes))]
	b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: uint32(3 * n)}})
	var all []byte
	for i := 0; i < 3; i++ {
		d := sym.Bytes("d", n)
		var err error
		if sym.Choose("read", 2) == 1 {
			_, err = b.Read(&src{b: append([]byte(nil), d...)}, n)
		} else {
			_, err = b.Append(d)
		}
		sym.Assert(err == nil, "adding bytes that fit is reported as an error")
		all = append(all, d...)
		sym.Assert(b.BytesLeft() == 3*n-len(all), "the count of missing bytes is wrong")
	}
	c := b.Build()
	sym.Cover("built")
	sym.Assert(len(c.Data) == len(all), "a built message has more or fewer bytes than were added")
	sym.Assert(eqBytes(c.Data, all), "a built message is not the concatenation of its parts")
}

var _ = io.EOF
