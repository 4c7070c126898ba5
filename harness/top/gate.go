package top

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// The three predefined gates on every message.
//
//verif:property C23
//verif:bounds every chunk stream id, message stream id, type id and other header field; payloads of 0..2 bytes
func GatesClassify() {
	n := sym.Choose("n", 3)
	h := anyHeader(uint32(n))
	c := chunk.New(h, sym.Bytes("data", n))
	cs, ms, t := h.BasicHeader.StreamId, h.MessageHeader.StreamId, h.MessageHeader.TypeId
	before := *h
	a, b, d := cmd.NetConnGate.Open(c), cmd.NetStreamGate.Open(c), cmd.DataStreamGate.Open(c)
	wantA := sym.Or(cs == 3, sym.And(cs == 8, ms == 0))
	wantB := sym.And(sym.Or(cs == 4, sym.And(cs == 8, ms == 1)), t == 0x14)
	wantD := sym.And(cs == 4, sym.Or(t == 8, t == 9, t == 0x12))
	switch {
	case a:
		sym.Cover("connection command")
	case b:
		sym.Cover("stream command")
	case d:
		sym.Cover("media")
	default:
		sym.Cover("none")
	}
	sym.Assert(a == wantA, "a message is taken for a connection command, or a connection command is not")
	sym.Assert(b == wantB, "a message is taken for a stream command, or a stream command is not")
	sym.Assert(d == wantD, "a message is taken for media, or media is not")
	sym.Assert(!(a && b) && !(a && d) && !(b && d), "a message is classified as two things")
	sym.Assert(c.Header == h && sameHeader(h, &before), "classifying a message changes it")
	// asking again, in another order, gives the same answer
	sym.Assert(cmd.DataStreamGate.Open(c) == d && cmd.NetStreamGate.Open(c) == b && cmd.NetConnGate.Open(c) == a, "a gate answers differently the second time")
}

// The elementary gates.
//
//verif:property C23
//verif:bounds every id asked for and every header
func GatesElementary() {
	h := anyHeader(0)
	c := chunk.New(h, nil)
	id, t := sym.Uint32("id"), sym.Byte("t")
	sym.Assert((&cmd.StreamIdGate{StreamId: id}).Open(c) == (id == h.BasicHeader.StreamId), "a chunk stream gate looks at something else")
	sym.Assert((&cmd.MessageStreamGate{StreamId: id}).Open(c) == (id == h.MessageHeader.StreamId), "a message stream gate looks at something else")
	sym.Assert((&cmd.TypeIdGate{TypeId: t}).Open(c) == (t == h.MessageHeader.TypeId), "a type gate looks at something else")
	sym.Cover("asked")
}

type fixedGate struct {
	open bool
	c    *chunk.Chunk
}

func (g *fixedGate) Open(c *chunk.Chunk) bool {
	sym.Assert(c == g.c, "a gate is asked about another message")
	return g.open
}

// Conjunctions and alternatives of gates, nested two deep.
//
//verif:property C23
//verif:bounds trees of conjunctions and alternatives with 0..3 members each, two levels, over arbitrary gates
func GatesCombined() {
	c := chunk.New(anyHeader(0), nil)
	var build func(depth int) (cmd.Gate, bool)
	build = func(depth int) (cmd.Gate, bool) {
		kind := 0
		if depth > 0 {
			kind = sym.Choose("kind", 3)
		}
		if kind == 0 {
			o := sym.Bool("open")
			return &fixedGate{o, c}, o
		}
		n := sym.Choose("n", 4)
		all, some := n > 0, false
		var gs []cmd.Gate
		for i := 0; i < n; i++ {
			d := depth - 1
			if i > 0 {
				d = 0
			}
			g, o := build(d)
			all = sym.And(all, o)
			some = sym.Or(some, o)
			gs = append(gs, g)
		}
		if kind == 1 {
			sym.Cover("conjunction")
			return cmd.NewUnionGate(gs...), all
		}
		sym.Cover("alternative")
		return cmd.NewAnyGate(gs...), some
	}
	g, want := build(sym.Param(2, 3))
	sym.Assert(g.Open(c) == want, "a combined gate is not open exactly when its members demand it")
}
