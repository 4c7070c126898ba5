package top

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// A long life of a loop.
//
//verif:property C29
//verif:bounds each of the three loops; 200 (thorough: 1500) events in turn: chunks of every kind with arbitrary bodies, empty ones, items sent, items that do not marshal, failing writes
//verif:steps 60000000
//verif:shards 3 3
func LongLoop() {
	kind := sym.Choose("loop", 3)
	w := &sink{}
	l := newLoop(kind, w)
	done := make(chan struct{})
	go func() { l.listen(); close(done) }()
	var marks []byte
	for i, k := 0, sym.Param(200, 1500); i < k; i++ {
		var seen []byte
		trouble := troubleOf(i / 7)
		abstractAMFError(&seen, trouble)
		switch op := i % 7; op {
		case 0, 2, 4, 6:
			code := i / 7 % codes[kind]
			mark := sym.Byte("mark")
			if i%5 == 4 {
				mark = 0xff
			} else {
				sym.Assume(mark != 0xff)
			}
			c, good := l.arriving(code, mark)
			l.chunks <- c
			it := l.next()
			sym.Assert(it.open, "the loop ends before it is closed")
			if good {
				sym.Assert(it.err == nil, "a chunk that decodes is reported as an error")
				l.is(it, code, mark, seen)
			} else {
				sym.Assert(it.err != nil, "a chunk that does not decode yields an item")
			}
		case 1:
			l.chunks <- msgChunk(4, 1, 8, nil)
			it := l.next()
			sym.Assert(it.open && it.err != nil, "an empty chunk is not reported as an error")
		case 3, 5:
			mark := byte(i)
			if mark == 0xff {
				mark = 0
			}
			if i%3 == 1 {
				mark = 0xff
			}
			w.fail = i%3 == 2
			w.err = trouble
			l.sendOr(mark, trouble)
			if i%3 == 0 {
				marks = append(marks, mark)
				sym.Quiesce()
				break
			}
			it := l.next()
			sym.Assert(it.open && it.err == trouble, "a failure to send is not reported, or as another error")
		}
		sym.Assert(len(w.got) == len(marks), "something other than the items sent is written")
	}
	for i, m := range marks {
		l.sent(w.got[i], m)
	}
	l.close()
	<-done
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines outlive the loop")
}

// A long life of a dispatcher.
//
//verif:property C24
//verif:bounds 300 (thorough: 2000) messages for each receiver and for none in turn, receivers managed by the dispatcher or run by the caller, then a close
//verif:steps 60000000
//verif:shards 2 2
//verif:mode allorders
func LongDispatch() {
	managed := sym.Choose("managed", 2) == 1
	in := source{make(chan *chunk.Chunk)}
	m := cmd.New(in, &sink{})
	o := outletsOf(m)
	abstractAMFNoRecord()
	done := make(chan struct{})
	if !managed {
		go m.NetConn().Listen()
		go m.NetStream().Listen()
		go m.DataStream().Recv()
	}
	go func() { m.Dispatch(managed); close(done) }()
	for i, k := 0, sym.Param(300, 2000); i < k; i++ {
		to := i * 5 / 3 % 4
		j := i % 2
		in.ch <- dispatched(to, byte(j))
		if to == 3 {
			sym.Quiesce()
			sym.Assert(idle(m), "a message for nobody is handed out")
			continue
		}
		r, _ := o.take(nil)
		sym.Assert(r.err == nil && r.to == to, "a message reaches another receiver")
		sym.Assert(r.to == 0 && isConn(r.recv, j) || r.to == 1 && isStream(r.cmd, j) || r.to == 2 && isData(r.dat, byte(8+j)), "a message is relayed as another")
	}
	sym.Cover("dispatched")
	m.Close()
	<-done
	if !managed {
		m.NetConn().Close()
		m.NetStream().Close()
		m.DataStream().Close()
	}
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "receivers outlive the dispatcher")
}
