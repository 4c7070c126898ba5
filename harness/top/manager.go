package top

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// relayed is what one of the three receivers of a manager relayed.
type relayed struct {
	to   int // 0 connection, 1 stream, 2 media
	recv conn.Receivable
	cmd  stream.Command
	dat  data.Data
	ctl  control.Control
	err  error
}

// outlets are the channels of the three receivers, nil once closed.
type outlets struct {
	recv             <-chan conn.Receivable
	cmd              <-chan stream.Command
	dat              <-chan data.Data
	err0, err1, err2 <-chan error
}

func outletsOf(m *cmd.Manager) *outlets {
	return &outlets{m.NetConn().In(), m.NetStream().In(), m.DataStream().Out(), m.NetConn().Errs(), m.NetStream().Errs(), m.DataStream().Errs()}
}

// take waits for something from any receiver, or the end.
func (o *outlets) take(done <-chan struct{}) (r relayed, ok bool) {
	for {
		select {
		case r.recv, ok = <-o.recv:
			r.to = 0
			if !ok {
				o.recv = nil
			}
		case r.err, ok = <-o.err0:
			r.to = 0
			if !ok {
				o.err0 = nil
			}
		case r.cmd, ok = <-o.cmd:
			r.to = 1
			if !ok {
				o.cmd = nil
			}
		case r.err, ok = <-o.err1:
			r.to = 1
			if !ok {
				o.err1 = nil
			}
		case r.dat, ok = <-o.dat:
			r.to = 2
			if !ok {
				o.dat = nil
			}
		case r.err, ok = <-o.err2:
			r.to = 2
			if !ok {
				o.err2 = nil
			}
		case <-done:
			return r, false
		}
		if ok {
			return r, true
		}
	}
}

func idle(m *cmd.Manager) bool {
	select {
	case <-m.NetConn().In():
	case <-m.NetConn().Errs():
	case <-m.NetStream().In():
	case <-m.NetStream().Errs():
	case <-m.DataStream().Out():
	case <-m.DataStream().Errs():
	default:
		return true
	}
	return false
}

// A message without a body is for the same receiver as one with a body.
//
//verif:property C24
//verif:bounds an empty message with arbitrary chunk stream, message stream and type ids, then a close
func DispatchEmpty() {
	in := source{make(chan *chunk.Chunk)}
	m := cmd.New(in, &sink{})
	o := outletsOf(m)
	abstractAMFNoRecord()
	done := make(chan struct{})
	go func() { m.Dispatch(true); close(done) }()
	h := &chunk.Header{
		BasicHeader:   chunk.BasicHeader{StreamId: sym.Uint32("csid")},
		MessageHeader: chunk.MessageHeader{Timestamp: sym.Uint32("ts"), TypeId: sym.Byte("typ"), StreamId: sym.Uint32("msid")},
	}
	cs, ms, t := h.BasicHeader.StreamId, h.MessageHeader.StreamId, h.MessageHeader.TypeId
	to := -1
	switch {
	case sym.Or(cs == 3, sym.And(cs == 8, ms == 0)):
		to = 0
	case sym.And(sym.Or(cs == 4, sym.And(cs == 8, ms == 1)), t == 0x14):
		to = 1
	case sym.And(cs == 4, sym.Or(t == 8, t == 9, t == 0x12)):
		to = 2
	}
	in.ch <- chunk.New(h, nil)
	sym.Quiesce()
	if to >= 0 {
		r, _ := o.take(nil)
		sym.Cover("received")
		sym.Assert(r.to == to, "an empty message reaches the wrong receiver")
		sym.Quiesce()
	}
	sym.Assert(idle(m), "a message reaches a receiver it is not for, or reaches one twice")
	m.Close()
	<-done
}

// Every sequence of messages through a dispatcher that manages its receivers.
//
//verif:property C24
//verif:bounds every sequence of 3 (thorough: 4) messages with arbitrary chunk stream, message stream and type ids and an arbitrary body, or the end of input; then a close
//verif:shards 5 5
//verif:mode allorders
func DispatchHistory() {
	first := sym.Choose("first", 5) // where the first message goes, or that there is none
	in := source{make(chan *chunk.Chunk)}
	w := &sink{}
	m := cmd.New(in, w)
	o := outletsOf(m)
	var seen []byte
	abstractAMF(&seen)
	done := make(chan struct{})
	go func() { m.Dispatch(true); close(done) }()
	ended := false
	for i, k := 0, sym.Param(3, 4); i < k && !ended; i++ {
		if i == 0 && first == 4 || i > 0 && sym.Choose("end", 2) == 1 {
			close(in.ch)
			ended = true
			sym.Cover("end")
			sym.Quiesce()
			sym.Assert(idle(m), "something is relayed after the end of input")
			break
		}
		h := &chunk.Header{
			BasicHeader:   chunk.BasicHeader{StreamId: sym.Uint32("csid")},
			MessageHeader: chunk.MessageHeader{Timestamp: sym.Uint32("ts"), Length: 2, TypeId: sym.Byte("typ"), StreamId: sym.Uint32("msid")},
		}
		code := byte(i)
		mark := sym.Byte("mark")
		sym.Assume(mark != 0xff)
		seen = nil
		cs, ms, t := h.BasicHeader.StreamId, h.MessageHeader.StreamId, h.MessageHeader.TypeId
		toConn := sym.Or(cs == 3, sym.And(cs == 8, ms == 0))
		toStream := sym.And(sym.Or(cs == 4, sym.And(cs == 8, ms == 1)), t == 0x14)
		toData := sym.And(cs == 4, sym.Or(t == 8, t == 9, t == 0x12))
		if i == 0 {
			sym.Assume([]bool{toConn, toStream, toData, sym.Not(sym.Or(toConn, toStream, toData))}[first])
		}
		in.ch <- chunk.New(h, []byte{code, mark})
		sym.Quiesce()
		switch {
		case toConn:
			r, _ := o.take(nil)
			sym.Cover("connection command")
			sym.Assert(r.to == 0 && r.err == nil && isConn(r.recv, int(code)), "a connection command does not reach the connection")
			sym.Assert(len(seen) == 1 && seen[0] == mark, "a connection command is not decoded once from its body")
		case toStream:
			r, _ := o.take(nil)
			sym.Cover("stream command")
			sym.Assert(r.to == 1 && r.err == nil && isStream(r.cmd, int(code)), "a stream command does not reach the stream")
			sym.Assert(len(seen) == 1 && seen[0] == mark, "a stream command is not decoded once from its body")
		case toData:
			r, _ := o.take(nil)
			sym.Cover("media")
			sym.Assert(r.to == 2 && r.err == nil && isData(r.dat, t), "media does not reach the data stream")
			if x, ok := r.dat.(media); ok {
				sym.Assert(x.Control() == code && len(x.Payload()) == 1 && x.Payload()[0] == mark, "media arrives with other bytes")
			} else {
				sym.Assert(len(seen) == 1 && seen[0] == code, "a data frame is not decoded once from its body")
			}
		default:
			sym.Cover("nobody")
		}
		sym.Quiesce()
		sym.Assert(idle(m), "a message is handed out twice or to the wrong receiver")
	}
	sym.Assert(len(w.got) == 0, "the dispatcher writes something")
	m.Close()
	<-done
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "receivers outlive the dispatcher that manages them")
}

// messages of each kind, by destination 0..2 and 3 for none.
func dispatched(to int, i byte) *chunk.Chunk {
	switch to {
	case 0:
		return msgChunk(3, 0, 0x14, []byte{i, i})
	case 1:
		return msgChunk(8, 1, 0x14, []byte{i, i})
	case 2:
		return msgChunk(4, 1, 8+i, []byte{i})
	}
	return msgChunk(5, 1, 0x14, []byte{i, i})
}

// A close at any moment, with the receivers' output being read.
//
//verif:property C24
//verif:bounds up to 1 (thorough: 2) messages for any of the receivers or none, then the end of input or more to come, and a close at any time; receivers managed by the dispatcher; every schedule
//verif:mode full race noobs
//verif:shards 5 9
func DispatchCloseAny() {
	n, end := 0, 0
	var to [2]int
	switch x := sym.Choose("n", sym.Param(5, 9)); {
	case x == 0:
	case x < 5:
		n, to[0] = 1, x-1
	default:
		n, to[0] = 2, x-5
		to[1] = sym.Choose("to", 4)
	}
	end = sym.Choose("end", 2)
	in := source{make(chan *chunk.Chunk)}
	m := cmd.New(in, &sink{})
	o := outletsOf(m)
	abstractAMFNoRecord()
	done := make(chan struct{})
	go func() { m.Dispatch(true); close(done) }()
	go func() {
		for i := 0; i < n; i++ {
			select {
			case in.ch <- dispatched(to[i], byte(i)):
			case <-done:
				return
			}
		}
		if end == 1 {
			close(in.ch)
		}
	}()
	closed := make(chan struct{})
	go func() { m.Close(); close(closed) }()
	got := [2]bool{}
	last := [3]int{-1, -1, -1}
	for {
		r, ok := o.take(done)
		if !ok {
			break
		}
		sym.Assert(r.err == nil, "an error is reported for no reason")
		i := -1
		for j := 0; j < n; j++ {
			if to[j] == r.to && (r.to == 0 && isConn(r.recv, j) || r.to == 1 && isStream(r.cmd, j) || r.to == 2 && isData(r.dat, byte(8+j))) {
				i = j
			}
		}
		sym.Assert(i >= 0 && !got[i], "a message is handed out twice or to the wrong receiver")
		sym.Assert(i > last[r.to], "messages for one receiver are reordered")
		got[i], last[r.to] = true, i
	}
	<-closed
	if n == 2 && to[0] == to[1] && to[0] < 3 {
		sym.Assert(got[0] || !got[1], "a message is lost before a later one is delivered")
	}
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines outlive the dispatcher")
}

// A dispatcher whose receivers nobody runs can be closed all the same.
//
//verif:property C24
//verif:bounds up to 2 messages for any of the receivers or none, receivers not running, end of input or more to come, a close at any time; every schedule
//verif:mode full race noobs
func DispatchUnmanagedClose() {
	n, end := sym.Choose("n", 3), sym.Choose("end", 2)
	var to [2]int
	for i := 0; i < n; i++ {
		to[i] = sym.Choose("to", 4)
	}
	in := source{make(chan *chunk.Chunk)}
	m := cmd.New(in, &sink{})
	done := make(chan struct{})
	go func() { m.Dispatch(false); close(done) }()
	go func() {
		for i := 0; i < n; i++ {
			select {
			case in.ch <- dispatched(to[i], byte(i)):
			case <-done:
				return
			}
		}
		if end == 1 {
			close(in.ch)
		}
	}()
	m.Close()
	<-done
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines outlive the dispatcher")
}

// Receivers run by the harness: everything arrives, in order.
//
//verif:property C24
//verif:bounds 3 messages for any of the receivers or none, receivers run by the caller, then the end of input and a close; every schedule
//verif:mode full race noobs
//verif:shards 16 16
func DispatchUnmanagedAll() {
	const n = 3
	x := sym.Choose("to", 64)
	to := [n]int{x & 3, x >> 2 & 3, x >> 4}
	in := source{make(chan *chunk.Chunk)}
	m := cmd.New(in, &sink{})
	o := outletsOf(m)
	abstractAMFNoRecord()
	done := make(chan struct{})
	go m.NetConn().Listen()
	go m.NetStream().Listen()
	go m.DataStream().Recv()
	go func() { m.Dispatch(false); close(done) }()
	sent := make(chan struct{})
	go func() {
		for i := 0; i < n; i++ {
			in.ch <- dispatched(to[i], byte(i%2))
		}
		close(in.ch)
		close(sent)
	}()
	want := [3][]byte{}
	total := 0
	for i := 0; i < n; i++ {
		if to[i] < 3 {
			want[to[i]] = append(want[to[i]], byte(i%2))
			total++
		}
	}
	for ; total > 0; total-- {
		r, _ := o.take(nil)
		sym.Assert(r.err == nil, "an error is reported for no reason")
		q := want[r.to]
		sym.Assert(len(q) > 0, "a message is handed out twice or to the wrong receiver")
		i := int(q[0])
		want[r.to] = q[1:]
		sym.Assert(r.to == 0 && isConn(r.recv, i) || r.to == 1 && isStream(r.cmd, i) || r.to == 2 && isData(r.dat, byte(8+i)), "messages for one receiver are reordered or lost")
	}
	<-sent
	m.Close()
	<-done
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 3, "the dispatcher ends receivers it does not manage, or outlives its close")
	m.NetConn().Close()
	m.NetStream().Close()
	m.DataStream().Close()
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "receivers outlive their close")
}
