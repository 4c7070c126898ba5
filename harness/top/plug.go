package top

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// plain is media of the application's.
type plain struct {
	c   *chunk.Chunk
	out *chunk.Chunk
	err error
}

func (p *plain) Id() byte { return 0x77 }
func (p *plain) Read(c *chunk.Chunk) error {
	p.c = c
	return p.err
}
func (p *plain) Marshal() (*chunk.Chunk, error) { return p.out, p.err }

// plainParser is a parser of the application's.
type plainParser struct {
	calls int
	err   error
}

func (p *plainParser) Parse(c *chunk.Chunk) (data.Data, error) {
	p.calls++
	if p.err != nil {
		return nil, p.err
	}
	return &plain{c: c}, nil
}

// A data stream uses the parser it was told to use, and writes what the application's media marshals to.
//
//verif:property C39
//verif:bounds every sequence of 4 (thorough: 6) events: a chunk of any header fields and 0..3 bytes arriving, parsed or refused by the application's parser with one of eighteen errors; media sent that marshals to a chunk of any header fields and 0..3 bytes, or fails; the standard parser while another stream has the application's
func PlugData() {
	var seen []byte
	abstractAMF(&seen)
	w := &sink{}
	chunks := make(chan *chunk.Chunk)
	s := data.NewStream(chunks, w)
	p := &plainParser{}
	s.SetParser(p)
	other := data.NewStream(make(chan *chunk.Chunk), w)
	done := make(chan struct{})
	go func() { s.Recv(); close(done) }()
	go other.Recv()
	var want []*chunk.Chunk
	for i, k := 0, sym.Param(4, 6); i < k; i++ {
		op := sym.Choose("op", 4)
		fault := troubleOf(4*i + op)
		c := anyMessage([]int{1, 0, 3, 2}[i%4])
		p.err = nil
		switch op {
		case 0, 1:
			if op == 1 {
				p.err = fault
			}
			before := p.calls
			chunks <- c
			select {
			case d := <-s.Out():
				m, ok := d.(*plain)
				sym.Assert(op == 0 && ok, "what arrives is not what the given parser made")
				sym.Assert(sameChunk(m.c, c), "the given parser is asked for another chunk")
			case err := <-s.Errs():
				sym.Assert(op == 1 && err == fault, "the given parser's error is not reported")
			}
			sym.Assert(p.calls == before+1, "the given parser is asked other than once")
		case 2:
			s.In() <- &plain{out: c}
			want = append(want, c)
		case 3:
			s.In() <- &plain{err: fault}
			sym.Assert(<-s.Errs() == fault, "a failure to marshal is not reported")
		}
		sym.Quiesce()
		sym.Assert(len(w.got) == len(want), "something other than what was sent is written")
	}
	for i, c := range want {
		sym.Assert(sameChunk(w.got[i], c), "what is written is not what was sent")
	}
	other.Chunks() <- msgChunk(4, 1, 8, []byte{7})
	d := <-other.Out()
	sym.Assert(isData(d, 8), "a stream is given another stream's parser")
	sym.Cover("done")
	s.Close()
	other.Close()
	<-done
}

// A media parser knows the kinds it was made of and no others.
//
//verif:property C39
//verif:bounds a parser of up to three kinds out of audio, video and one of the application's with any other type id, asked for a message of any type id with 1 or 2 bytes, twice
func PlugKinds() {
	id := sym.Byte("id")
	sym.Assume(sym.And(id != 8, id != 9))
	var kinds []data.DataFactory
	mask := sym.Choose("kinds", 8)
	if mask&1 != 0 {
		kinds = append(kinds, func() data.Data { return &data.Audio{} })
	}
	if mask&2 != 0 {
		kinds = append(kinds, func() data.Data { return &data.Video{} })
	}
	if mask&4 != 0 {
		kinds = append(kinds, func() data.Data { return &numbered{id: id} })
	}
	p := data.NewParser(kinds...)
	c := anyMessage(sym.Param(1, 2))
	typ := c.Header.MessageHeader.TypeId
	d, err := p.Parse(c)
	known := sym.Or(sym.And(mask&1 != 0, typ == 8), sym.And(mask&2 != 0, typ == 9), sym.And(mask&4 != 0, typ == id))
	if err != nil {
		sym.Cover("refused")
		sym.Assert(sym.And(d == nil, sym.Not(known)), "a parser refuses a kind it was given")
		return
	}
	sym.Cover("parsed")
	sym.Assert(known, "a parser knows a kind it was not given")
	e, err := p.Parse(c)
	sym.Assert(err == nil && e != d, "a message is not made afresh")
	if m, ok := d.(*numbered); ok {
		sym.Assert(typ == id && sameChunk(m.c, c), "a message is read from another chunk")
		return
	}
	sym.Assert(isData(d, 8) && typ == 8 || isData(d, 9) && typ == 9, "a message is parsed as another kind")
}

// numbered is media of the application's with a type id.
type numbered struct {
	plain
	id byte
}

func (n *numbered) Id() byte { return n.id }

func anyMessage(n int) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: sym.Byte("format"), StreamId: sym.Uint32("csid")},
		MessageHeader:     chunk.MessageHeader{FormatId: sym.Byte("format"), Timestamp: sym.Uint32("ts"), TimestampDelta: sym.Bool("delta"), Length: sym.Uint32("length"), TypeId: sym.Byte("typ"), StreamId: sym.Uint32("msid")},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: sym.Uint32("ext")},
	}, sym.Bytes("data", n))
}

func sameChunk(a, b *chunk.Chunk) bool {
	h, g := a.Header, b.Header
	m, n := h.MessageHeader, g.MessageHeader
	return len(a.Data) == len(b.Data) && eqBytes(a.Data, b.Data) && sym.And(
		h.BasicHeader.FormatId == g.BasicHeader.FormatId, h.BasicHeader.StreamId == g.BasicHeader.StreamId,
		m.FormatId == n.FormatId, m.Timestamp == n.Timestamp, m.TimestampDelta == n.TimestampDelta, m.Length == n.Length,
		m.TypeId == n.TypeId, m.StreamId == n.StreamId, h.ExtendedTimestamp.Delta == g.ExtendedTimestamp.Delta)
}
