package top

import (
	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

type rawBody struct {
	b   []byte
	err error
}

func (r rawBody) Marshal() ([]byte, error) { return r.b, r.err }

// outgoing makes the chunk of message kind, whose body the codec answers with b or err,
// and tells the chunk stream, message stream, type and payload it must have.
func outgoing(kind int, b []byte, err error) (*chunk.Chunk, error, [3]uint32, []byte) {
	var seen interface{}
	encoding.MarshalFn = func(v interface{}) ([]byte, error) { seen = v; return b, err }
	switch kind {
	case 0:
		c, e := conn.NewChunker(conn.ChunkStreamId).Chunk(rawBody{b, err})
		return c, e, [3]uint32{3, 0, 0x14}, b
	case 1:
		m := &conn.CreateStreamResponse{TransactionId: 4, StreamID: 1}
		c, e := conn.NewChunker(conn.ChunkStreamId).Chunk(m)
		x, ok := seen.(*conn.CreateStreamResponse)
		sym.Assert(ok && x.ResponseType == "_result" && x.TransactionId == 4 && x.StreamID == 1, "another response than the one given is marshalled")
		return c, e, [3]uint32{3, 0, 0x14}, b
	case 2:
		m := &conn.ConnectResponse{TransactionId: 7, Properties: *amf0.NewObject(), Information: *amf0.NewObject()}
		c, e := conn.NewChunker(conn.ChunkStreamId).Chunk(m)
		x, ok := seen.(*conn.ConnectResponse)
		sym.Assert(ok && x.ResponseType == "_result" && x.TransactionId == 7, "another response than the one given is marshalled")
		return c, e, [3]uint32{3, 0, 0x14}, b
	case 3:
		m := stream.NewStatus()
		c, e := m.AsChunk()
		sym.Assert(seen == m, "another status than the one given is marshalled")
		return c, e, [3]uint32{5, 1, 0x14}, append(append([]byte(nil), stream.OnStatusCommandHeader...), b...)
	default:
		m := &data.DataFrame{Header: "@setDataFrame", Type: "onMetaData", Arguments: amf0.NewArray()}
		c, e := m.Marshal()
		sym.Assert(seen == m, "another data frame than the one given is marshalled")
		return c, e, [3]uint32{4, 1, 0x12}, b
	}
}

func checkOutgoing(c *chunk.Chunk, want [3]uint32, payload []byte) {
	sym.Assert(c != nil && c.Header != nil, "no chunk is produced")
	h := c.Header
	sym.Assert(h.BasicHeader.FormatId == 0 && h.MessageHeader.FormatId == 0, "an outgoing message does not have format 0")
	sym.Assert(h.BasicHeader.StreamId == want[0], "an outgoing message is on the wrong chunk stream")
	sym.Assert(h.MessageHeader.StreamId == want[1], "an outgoing message is on the wrong message stream")
	sym.Assert(uint32(h.MessageHeader.TypeId) == want[2], "an outgoing message has the wrong type")
	sym.Assert(h.MessageHeader.Timestamp == 0 && !h.MessageHeader.TimestampDelta && h.ExtendedTimestamp.Delta == 0, "an outgoing message has a timestamp nobody set")
	sym.Assert(int(h.MessageHeader.Length) == len(payload), "the announced length is not the payload's")
	sym.Assert(len(c.Data) == len(payload) && eqBytes(c.Data, payload), "the payload is not the marshalled body")
}

var bodyLens = []int{0, 1, 2, 5, 64, 127, 128, 129, 1000, 65533, 65536, 70000}

// One outgoing message of every kind.
//
//verif:property C27
//verif:bounds command responses, statuses and data frames whose marshalled body is 0..70000 (listed lengths) arbitrary bytes, or fails to marshal
func OutgoingFraming() {
	kind := sym.Choose("kind", 5)
	var err error
	fails := sym.Choose("fails", 3)
	x := sym.Choose("n", len(bodyLens))
	if fails > 0 {
		err = troubleOf(2*x + fails)
	}
	b := sym.Bytes("body", bodyLens[x])
	c, e, want, payload := outgoing(kind, append([]byte(nil), b...), err)
	if err != nil {
		sym.Cover("failure")
		sym.Assert(e == err && c == nil, "a marshalling failure is not returned, or yields a chunk")
		return
	}
	sym.Assert(e == nil, "a message that marshals is reported as an error")
	sym.Cover("framed")
	checkOutgoing(c, want, payload)
	sym.ObserveBytes("payload", c.Data)
}

// A chunker given another chunk stream. Its documentation says that its chunks go there, its
// test that they go to 3; nothing in the repository makes one, so both are accepted.
//
//verif:property C27
//verif:bounds a command response of 0..3 arbitrary bytes, three times from a chunker given any chunk stream
func OutgoingChunkStream() {
	id := sym.Uint32("id")
	b := sym.Bytes("body", sym.Choose("n", 4))
	k := conn.NewChunker(id)
	var made []*chunk.Chunk
	check := func() {
		for _, c := range made {
			to := uint32(3)
			if c.Header.BasicHeader.StreamId != 3 {
				to = id
			}
			checkOutgoing(c, [3]uint32{to, 0, 0x14}, b)
		}
	}
	for i := 0; i < 3; i++ {
		c, err := k.Chunk(rawBody{append([]byte(nil), b...), nil})
		sym.Assert(err == nil, "a message that marshals is reported as an error")
		sym.Cover("framed")
		made = append(made, c)
		check()
	}
	// changing one leaves the others alone
	made[1].Header.MessageHeader.TypeId, made[1].Header.BasicHeader.StreamId = 99, 99
	for i := range made[1].Data {
		made[1].Data[i] ^= 0xff
	}
	made = []*chunk.Chunk{made[0], made[2]}
	check()
}

// Messages produced one after another do not disturb each other.
//
//verif:property C27
//verif:bounds 3 messages of any of the five kinds, bodies of 0..2 arbitrary bytes in buffers with spare room
//verif:shards 5 5
func OutgoingIndependent() {
	type made struct {
		c       *chunk.Chunk
		want    [3]uint32
		payload []byte
	}
	head := append([]byte(nil), stream.OnStatusCommandHeader...)
	var all []made
	for i := 0; i < 3; i++ {
		kind := sym.Choose("kind", 5)
		n := sym.Choose("n", 3)
		b := append(make([]byte, 0, 16), sym.Bytes("body", n)...)
		c, e, want, payload := outgoing(kind, b, nil)
		sym.Assert(e == nil, "a message that marshals is reported as an error")
		all = append(all, made{c, want, append([]byte(nil), payload...)})
	}
	sym.Cover("three")
	for _, m := range all {
		checkOutgoing(m.c, m.want, m.payload)
	}
	sym.Assert(len(head) == len(stream.OnStatusCommandHeader) && eqBytes(head, stream.OnStatusCommandHeader), "producing a message changes the onStatus header")
	// changing one chunk leaves the others alone
	for i := range all[1].c.Data {
		all[1].c.Data[i] ^= 0xff
	}
	all[1].c.Header.MessageHeader.TypeId = 99
	checkOutgoing(all[0].c, all[0].want, all[0].payload)
	checkOutgoing(all[2].c, all[2].want, all[2].payload)
}

// The onStatus header is what the codec made of it when the program started.
//
//verif:property C27
//verif:bounds the one header there is
func OnStatusHeader() {
	sym.Cover("header")
	sym.Assert(stream.OnStatusName == "onStatus" && len(stream.OnStatusCommandHeader) == 3, "the onStatus header is not the marshalled command header")
	sym.Assert(eqBytes(stream.OnStatusCommandHeader, []byte{0xa1, 0xa2, 0xa3}), "the onStatus header is not the marshalled command header")
}
