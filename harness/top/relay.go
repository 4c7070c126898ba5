package top

import (
	"io"

	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// connected is a client that has shaken hands and whose loops run.
func connected() (*client.Client, *peer) {
	p := newPeer()
	p.more = make(chan []byte, 4)
	c := client.New(p)
	sym.Assert(c.Handshake() == nil, "a correct handshake fails")
	go c.Controls().Recv()
	go c.Net().Dispatch(true)
	return c, p
}

// received is a message the peer of a client got.
type received struct {
	csid, msid uint32
	typ        byte
	ts         uint32
	ext        uint32
	data       []byte
}

// overheard is what a peer makes of the bytes a client wrote after the handshake.
func overheard(b []byte) []received {
	r := chunk.NewReader(&bytesSource{b: b}, chunk.DefaultReadSize, chunk.NewNormalizer())
	go r.Recv()
	var got []received
	for {
		select {
		case c := <-r.Chunks():
			h := c.Header
			got = append(got, received{h.BasicHeader.StreamId, h.MessageHeader.StreamId, h.MessageHeader.TypeId, h.MessageHeader.Timestamp, h.ExtendedTimestamp.Delta, c.Data})
			sym.Assert(len(got) <= 16, "the peer sees more messages than were sent")
		case err := <-r.Errs():
			r.Close()
			sym.Assert(err == io.EOF, "the peer cannot read what a client wrote")
			return got
		}
	}
}

type bytesSource struct {
	b   []byte
	pos int
}

func (s *bytesSource) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos == len(s.b) {
		return 0, io.EOF
	}
	n := copy(b, s.b[s.pos:])
	s.pos += n
	return n, nil
}

// mediaChunks is the wire form, at chunk size 128, of a message on chunk stream 4.
func mediaChunks(f byte, ts uint32, ext uint32, typ byte, msid uint32, data []byte) []byte {
	var b, e []byte
	b = append(b, f<<6|4)
	if f < 3 {
		b = append(b, byte(ts>>16), byte(ts>>8), byte(ts))
		if ts == 0xffffff {
			e = []byte{byte(ext >> 24), byte(ext >> 16), byte(ext >> 8), byte(ext)}
		}
	}
	if f < 2 {
		b = append(b, byte(len(data)>>16), byte(len(data)>>8), byte(len(data)), typ)
	}
	if f < 1 {
		b = append(b, byte(msid), byte(msid>>8), byte(msid>>16), byte(msid>>24))
	}
	b = append(b, e...)
	for len(data) > 128 {
		b = append(append(append(b, data[:128]...), 0xc4), e...)
		data = data[128:]
	}
	return append(b, data...)
}

// Media that arrives on one connection and is sent on another arrives there as it was.
//
//verif:property C37
//verif:bounds 2 (thorough: 3) audio or video messages of 1, 2, 128, 129 or 300 arbitrary bytes with any timestamp and message stream, the later ones of formats 0..3; relayed from the first or, if that is of format 0, from the second on; the second connection announces its chunk size first or only gets messages of up to 128 bytes, and sends a response, a status or a control message in between or nothing; the timestamps of format 1..3 are differences
//verif:steps 40000000
//verif:shards 10 10
func Relay() {
	x := sym.Choose("n0", 10)
	n := []int{1, 2, 128, 129, 300}[x%5]
	announce := x < 5
	abstractAMFNoRecord()
	a, pa := connected()
	b, pb := connected()
	if announce {
		b.Controls().Out() <- control.NewSetChunkSize(4096)
		sym.Quiesce()
	}
	k := sym.Param(2, 3)
	join := 0
	var want []received
	var typ byte
	var ts, ext, msid uint32
	for i := 0; i < k; i++ {
		f := byte(0)
		if i > 0 {
			f = byte(sym.Choose("fmt", 4))
		}
		if f < 2 {
			typ = 8 + byte(sym.Choose("typ", 2))
			if i > 0 {
				n = []int{1, 129}[sym.Choose("n", 2)]
			}
		}
		if f < 3 {
			ts = sym.Uint32("ts")
			sym.Assume(ts <= 0xffffff)
			ext = sym.Uint32("ext")
		}
		if f == 0 {
			msid = sym.Uint32("msid")
		}
		if i == 0 && k > 1 {
			join = sym.Choose("join", 2)
		}
		body := sym.Bytes("data", n)
		m := mediaChunks(f, ts, ext, typ, msid, body)
		if f == 3 && ts == 0xffffff {
			// the extended timestamp stands in every chunk
			m = append([]byte{0xc4, byte(ext >> 24), byte(ext >> 16), byte(ext >> 8), byte(ext)}, body[:min(n, 128)]...)
			for d := body[min(n, 128):]; len(d) > 0; d = d[min(len(d), 128):] {
				m = append(m, 0xc4, byte(ext>>24), byte(ext>>16), byte(ext>>8), byte(ext))
				m = append(m, d[:min(len(d), 128)]...)
			}
		}
		pa.more <- m
		sym.Quiesce()
		select {
		case d := <-a.Net().DataStream().Out():
			if i < join {
				continue
			}
			// see RelayJoin and RelayUnannounced for the others
			sym.Assume((i != join || f == 0) && (announce || n <= 128))
			b.Net().DataStream().In() <- d
		default:
			sym.Fail("a media message is not delivered")
		}
		sym.Quiesce()
		want = append(want, received{4, msid, typ, ts, ext, body})
		if i == join {
			switch sym.Choose("between", 4) {
			case 1:
				b.Net().NetConn().Out() <- rawBody{b: []byte{1, 2, 3}}
				want = append(want, received{3, 0, 0x14, 0, 0, []byte{1, 2, 3}})
			case 2:
				encoding.MarshalFn = func(interface{}) ([]byte, error) { return []byte{4, 5}, nil }
				b.Net().NetStream().Status() <- stream.NewStatus()
				want = append(want, received{5, 1, 0x14, 0, 0, append(append([]byte(nil), stream.OnStatusCommandHeader...), 4, 5)})
			case 3:
				b.Controls().Out() <- &control.WindowAckSize{WindowAckSize: 7}
				want = append(want, received{2, 0, 5, 0, 0, []byte{0, 0, 0, 7}})
			}
			sym.Quiesce()
		}
	}
	sym.Assert(idle(a.Net()) && idle(b.Net()), "something is reported that nobody asked for")
	got := overheard(pb.out[whole:])
	sym.Cover("relayed")
	sym.Assert(len(got) == len(want), "the peer of the second connection sees more or fewer messages than were sent")
	for i, g := range got {
		w := want[i]
		sym.Assert(sym.And(g.csid == w.csid, g.msid == w.msid, g.typ == w.typ), "a relayed message arrives on another stream or with another type")
		sym.Assert(g.ts == w.ts, "a relayed message arrives with another timestamp")
		sym.Assert(sym.Or(w.ts != 0xffffff, g.ext == w.ext), "a relayed message arrives with another extended timestamp")
		sym.Assert(len(g.data) == len(w.data) && eqBytes(g.data, w.data), "a relayed message arrives with other bytes")
	}
	sym.Assert(len(pa.out) == whole, "the first connection is written to")
	sym.ObserveBytes("out", pb.out[whole:min(len(pb.out), whole+64)])
}

// Long media.
//
//verif:property C37
//verif:bounds an audio or video message of 4095..70000 (listed lengths) arbitrary bytes and one of 2 bytes, in either order; the second connection has announced its chunk size
//verif:steps 60000000
//verif:shards 8 8
func RelayLong() {
	n := []int{4095, 4096, 4097, 8192, 65535, 65536, 65537, 70000}[sym.Choose("n", 8)]
	typ := 8 + byte(sym.Choose("typ", 2))
	again := sym.Choose("again", 2) == 1
	abstractAMFNoRecord()
	a, pa := connected()
	b, pb := connected()
	b.Controls().Out() <- control.NewSetChunkSize(4096)
	sym.Quiesce()
	body := sym.Bytes("data", n)
	small := sym.Bytes("small", 2)
	if again {
		body, small = small, body // the long one second
	}
	for _, d := range [][]byte{body, small} {
		pa.more <- mediaChunks(0, 5, 0, typ, 1, d)
		sym.Quiesce()
		select {
		case m := <-a.Net().DataStream().Out():
			b.Net().DataStream().In() <- m
		default:
			sym.Fail("a media message is not delivered")
		}
		sym.Quiesce()
	}
	got := overheard(pb.out[whole:])
	sym.Cover("relayed")
	sym.Assert(len(got) == 2, "messages are lost, or sent twice")
	for i, d := range [][]byte{body, small} {
		g := got[i]
		sym.Assert(g.csid == 4 && g.msid == 1 && g.typ == typ && g.ts == 5, "a relayed message arrives with another header")
		sym.Assert(len(g.data) == len(d) && eqBytes(g.data, d), "a relayed message arrives with other bytes")
	}
}

// Media whose first relayed message arrived with a compressed header.
//
//verif:property C37
//verif:bounds an audio message of format 0, not relayed, then one of format 1, 2 or 3 of 3 arbitrary bytes, relayed
func RelayJoin() {
	f := byte(1 + sym.Choose("fmt", 3))
	abstractAMFNoRecord()
	a, pa := connected()
	b, pb := connected()
	body := sym.Bytes("data", 3)
	pa.more <- mediaChunks(0, 5, 0, 8, 1, []byte{1, 2, 3})
	sym.Quiesce()
	<-a.Net().DataStream().Out()
	pa.more <- mediaChunks(f, 6, 0, 8, 1, body)
	sym.Quiesce()
	b.Net().DataStream().In() <- <-a.Net().DataStream().Out()
	sym.Quiesce()
	sym.Cover("relayed")
	// a compressed header leaves out what only the first connection's peer was told
	sym.Known("relay-compressed", f != 0)
	got := overheard(pb.out[whole:])
	sym.Assert(len(got) == 1 && got[0].csid == 4 && got[0].msid == 1 && got[0].typ == 8 && len(got[0].data) == 3 && eqBytes(got[0].data, body), "a message relayed to a connection that has not seen its predecessors does not arrive")
}

// Messages longer than the chunk size the peer knows.
//
//verif:property C37
//verif:bounds a data frame of 100..300 bytes (listed lengths) of arbitrary content sent without announcing a chunk size
//verif:steps 20000000
func RelayUnannounced() {
	n := []int{100, 128, 129, 300}[sym.Choose("n", 4)]
	body := sym.Bytes("body", n)
	a, pa := connected()
	encoding.MarshalFn = func(interface{}) ([]byte, error) { return body, nil }
	a.Net().DataStream().In() <- &data.DataFrame{}
	sym.Quiesce()
	out := pa.out[whole:]
	sym.Cover("sent")
	sym.Known("client-4096", n > 128)
	sym.Assert(len(out) == 12+n+(n-1)/128, "a message is not split at the chunk size that is in force")
	for i, c := range body {
		sym.Assert(out[12+i+i/128] == c, "a message arrives with other bytes")
	}
}

// Both loops of a connection write to one transport while media is relayed to it.
//
//verif:property C37
//verif:bounds 3 audio or video messages of 1, 2 or 130 bytes, given to the data stream in turn, while a response or a status is sent from another goroutine; chunk size 128; every schedule
//verif:mode full noobs
//verif:shards 8 8
func RelayAnySchedule() {
	x := sym.Choose("shape", 8)
	// the first message and the response take one or two chunks
	sizes := [3]int{1 + x&1*129, 2, 1}
	out := &recorder{}
	w := chunk.NewWriter(out, 128)
	ds := data.NewStream(make(chan *chunk.Chunk), w)
	nc := conn.NewNetConnection(make(chan *chunk.Chunk), w)
	ns := stream.New(make(chan *chunk.Chunk), w)
	statusMarks()
	go ds.Recv()
	if x>>1&1 == 0 {
		go nc.Listen()
	} else {
		go ns.Listen()
	}
	var want []received
	for i, n := range sizes {
		body := make([]byte, n)
		for j := range body {
			body[j] = byte(16*i + j)
		}
		want = append(want, received{4, 1, byte(8 + i&1), uint32(10 - i), 0, body})
	}
	other := received{3, 0, 0x14, 0, 0, make([]byte, 1+x>>2*130)}
	go func() {
		if x>>1&1 == 0 {
			nc.Out() <- rawBody{b: other.data}
		} else {
			st := stream.NewStatus()
			st.Arguments.Add(string([]byte{7}), nil)
			ns.Status() <- st
		}
	}()
	for _, m := range want {
		c := msgChunk(m.csid, m.msid, m.typ, m.data)
		c.Header.MessageHeader.Timestamp = m.ts
		d, err := data.DefaultParser.Parse(c)
		sym.Assert(err == nil, "a media message does not parse")
		ds.In() <- d
	}
	sym.Quiesce()
	if x>>1&1 == 1 {
		other = received{5, 1, 0x14, 0, 0, append(append([]byte(nil), stream.OnStatusCommandHeader...), 7)}
	}
	sym.Cover("relayed")
	next, others := 0, 0
	for _, g := range overheard(out.b) {
		if g.csid != 4 {
			others++
			sym.Assert(g.csid == other.csid && g.msid == other.msid && g.typ == other.typ && string(g.data) == string(other.data), "a reply arrives changed")
			continue
		}
		sym.Assert(next < len(want), "relayed media arrives twice")
		m := want[next]
		sym.Assert(g.msid == m.msid && g.typ == m.typ && g.ts == m.ts && string(g.data) == string(m.data), "relayed media arrives changed or in another order")
		next++
	}
	sym.Assert(next == len(want) && others == 1, "a relayed message or a reply is lost or repeated")
}

// recorder keeps what is written to it.
type recorder struct{ b []byte }

func (r *recorder) Write(p []byte) (int, error) {
	r.b = append(r.b, p...)
	return len(p), nil
}
