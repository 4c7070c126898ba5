package top

import (
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// loop is one of the three loops, seen alike.
type loop struct {
	kind   int
	chunks chan *chunk.Chunk
	listen func()
	close  func()
	errs   <-chan error

	nc *conn.NetConn
	ns *stream.NetStream
	ds *data.Stream

	recv <-chan conn.Receivable
	cmd  <-chan stream.Command
	dat  <-chan data.Data
}

func newLoop(kind int, w chunk.Writer) *loop {
	l := &loop{kind: kind, chunks: make(chan *chunk.Chunk)}
	switch kind {
	case 0:
		l.nc = conn.NewNetConnection(l.chunks, w)
		l.recv = l.nc.In()
		l.listen, l.close, l.errs = l.nc.Listen, l.nc.Close, l.nc.Errs()
	case 1:
		l.ns = stream.New(l.chunks, w)
		l.cmd = l.ns.In()
		l.listen, l.close, l.errs = l.ns.Listen, l.ns.Close, l.ns.Errs()
	default:
		l.ds = data.NewStream(l.chunks, w)
		l.dat = l.ds.Out()
		l.listen, l.close, l.errs = l.ds.Recv, l.ds.Close, l.ds.Errs()
	}
	return l
}

// item is what a loop relayed: the chunk with mark, of the kind code says; none at the end.
type item struct {
	recv conn.Receivable
	cmd  stream.Command
	dat  data.Data
	err  error
	open bool
}

// next waits for the next parsed item or error.
func (l *loop) next() item {
	switch l.kind {
	case 0:
		select {
		case r, ok := <-l.nc.In():
			return item{recv: r, open: ok}
		case e, ok := <-l.errs:
			return item{err: e, open: ok}
		}
	case 1:
		select {
		case r, ok := <-l.ns.In():
			return item{cmd: r, open: ok}
		case e, ok := <-l.errs:
			return item{err: e, open: ok}
		}
	default:
		select {
		case r, ok := <-l.ds.Out():
			return item{dat: r, open: ok}
		case e, ok := <-l.errs:
			return item{err: e, open: ok}
		}
	}
}

// pending tells whether anything waits to be taken; the others are known to be blocked.
func (l *loop) pending() bool {
	switch l.kind {
	case 0:
		select {
		case <-l.nc.In():
		case <-l.errs:
		default:
			return false
		}
	case 1:
		select {
		case <-l.ns.In():
		case <-l.errs:
		default:
			return false
		}
	default:
		select {
		case <-l.ds.Out():
		case <-l.errs:
		default:
			return false
		}
	}
	return true
}

// arriving is a chunk for the loop whose body is mark: code picks what it decodes to.
// It tells whether decoding succeeds.
func (l *loop) arriving(code int, mark byte) (*chunk.Chunk, bool) {
	switch l.kind {
	case 0: // known names, an unknown one, a name that is no string, an error
		c := []byte{0, 1, 2, 3, 4, 5, 0x80, 0xff}[code]
		return msgChunk(3, 0, 0x14, []byte{c, mark}), code < 5 && mark != 0xff
	case 1:
		c := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0xff}[code]
		return msgChunk(4, 1, 0x14, []byte{c, mark}), code < 8 && mark != 0xff
	default:
		t := []byte{8, 9, 0x12, 0x14, 0x0f}[code]
		return msgChunk(4, 1, t, []byte{mark}), code < 2 || code == 2 && mark != 0xff
	}
}

var codes = [3]int{8, 10, 5}

// badCodes are those that do not decode.
var badCodes = [3][]int{{5, 6, 7}, {8, 9}, {3, 4}}

// is checks that a relayed item is what the chunk of code and mark decodes to.
func (l *loop) is(it item, code int, mark byte, seen []byte) {
	switch l.kind {
	case 0:
		sym.Assert(isConn(it.recv, code), "a chunk is relayed as another command")
	case 1:
		sym.Assert(isStream(it.cmd, code), "a chunk is relayed as another command")
	default:
		sym.Assert(isData(it.dat, []byte{8, 9, 0x12, 0, 0}[code]), "a chunk is relayed as another kind of media")
		if m, ok := it.dat.(media); ok {
			sym.Assert(m.Control() == mark && len(m.Payload()) == 0, "media is relayed with other bytes")
			return
		}
	}
	sym.Assert(len(seen) == 1 && seen[0] == mark, "a body is decoded other than once, or another body is")
}

// send hands the loop an outgoing item whose marshalled body is mark.
func (l *loop) send(mark byte) { l.sendOr(mark, errAmf) }

// sendOr is send with the error that 0xff fails to marshal with.
func (l *loop) sendOr(mark byte, bad error) {
	encoding.MarshalFn = func(v interface{}) ([]byte, error) {
		if mark == 0xff {
			return nil, bad
		}
		return []byte{mark}, nil
	}
	switch l.kind {
	case 0:
		l.nc.Out() <- new(conn.ConnectResponse)
	case 1:
		l.ns.Status() <- stream.NewStatus()
	default:
		l.ds.In() <- new(data.DataFrame)
	}
}

// sent checks a chunk written for an outgoing item.
func (l *loop) sent(c *chunk.Chunk, mark byte) {
	payload := []byte{mark}
	want := [3]uint32{3, 0, 0x14}
	if l.kind == 1 {
		want = [3]uint32{5, 1, 0x14}
		payload = append(append([]byte(nil), stream.OnStatusCommandHeader...), mark)
	} else if l.kind == 2 {
		want = [3]uint32{4, 1, 0x12}
	}
	checkOutgoing(c, want, payload)
}

// Every history of arriving and leaving items, failures included.
//
//verif:property C29
//verif:bounds each of the three loops; every sequence of 3 (thorough: 4) events: a chunk of every kind (the fourth event: one of two kinds) with an arbitrary or undecodable body, an empty chunk, an item sent, one that does not marshal, one whose write fails, the end of the chunk channel; then a close
//verif:shards 9 18
func LoopHistory() {
	x := sym.Choose("loop", 18)
	kind := x % 3
	w := &sink{}
	l := newLoop(kind, w)
	done := make(chan struct{})
	go func() { l.listen(); close(done) }()
	ended := false
	var marks []byte
	for i, k := 0, sym.Param(3, 4); i < k; i++ {
		var seen []byte
		abstractAMFError(&seen, troubleOf(x+5*i))
		op := x / 3
		if i > 0 {
			op = sym.Choose("op", 6)
		}
		if ended && (op == 0 || op == 1 || op == 5) {
			continue
		}
		switch op {
		case 0:
			var code int
			if i < 3 {
				code = sym.Choose("code", codes[kind])
			} else {
				code = []int{1, codes[kind] - 1}[sym.Choose("code", 2)]
			}
			mark := sym.Byte("mark")
			c, good := l.arriving(code, mark)
			l.chunks <- c
			it := l.next()
			sym.Assert(it.open, "the loop ends before it is closed")
			if good {
				sym.Cover("item")
				sym.Assert(it.err == nil, "a chunk that decodes is reported as an error")
				l.is(it, code, mark, seen)
			} else {
				sym.Cover("undecodable")
				sym.Assert(it.err != nil, "a chunk that does not decode yields an item")
			}
		case 1:
			l.chunks <- msgChunk(4, 1, byte(8+sym.Choose("typ", 2)), nil)
			it := l.next()
			sym.Assert(it.open && it.err != nil, "an empty chunk is not reported as an error")
		case 2, 3, 4:
			mark := sym.Byte("out")
			sym.Assume(mark != 0xff)
			if op == 3 {
				mark = 0xff
			}
			w.fail = op == 4
			w.err = troubleOf(x + 7*i)
			bad := w.err
			l.sendOr(mark, bad)
			if op == 2 {
				marks = append(marks, mark)
				break
			}
			it := l.next()
			sym.Assert(it.open && it.err != nil, "a failure to send is not reported")
			if op == 3 {
				sym.Assert(it.err == bad, "a failure to marshal is reported as another error")
			} else {
				sym.Assert(it.err == w.err, "a failure to write is reported as another error")
			}
		case 5:
			close(l.chunks)
			ended = true
			sym.Cover("end")
		}
		sym.Quiesce()
		sym.Assert(!l.pending(), "an item or error is delivered twice, or for no reason, or the loop ends by itself")
		sym.Assert(len(w.got) == len(marks), "something other than the items sent is written")
	}
	for i, m := range marks {
		l.sent(w.got[i], m)
	}
	l.close()
	<-done
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0, "goroutines outlive the loop")
}

// Both directions at once.
//
//verif:property C29
//verif:bounds each of the three loops; up to 2 arriving chunks, of which one may be undecodable, and up to 2 items sent, of which the first may fail to marshal or to be written, from their own goroutines, then the end of input and a close; every schedule
//verif:mode full race noobs
//verif:shards 12 12
func LoopAnySchedule() {
	x := sym.Choose("loop", 12)
	kind, bad := x%3, x/3
	nin, nout := sym.Choose("nin", 3), sym.Choose("nout", 3)
	w := &sink{fail: bad == 3}
	l := newLoop(kind, w)
	var seen []byte
	abstractAMF(&seen)
	statusMarks()
	done := make(chan struct{})
	go func() { l.listen(); close(done) }()
	go func() {
		for i := 0; i < nin; i++ {
			code := i
			if bad == 1 && i == 0 {
				code = codes[kind] - 1
			}
			c, _ := l.arriving(code, byte(i))
			l.chunks <- c
		}
		close(l.chunks)
	}()
	sent := make(chan struct{})
	go func() {
		for i := 0; i < nout; i++ {
			m := byte(16 + i)
			if bad == 2 && i == 0 {
				m = 0xff
			}
			l.sendAny(m)
		}
		close(sent)
	}()
	next, errs, wantErrs := 0, 0, 0
	if bad == 1 && nin > 0 {
		wantErrs, next = 1, 1
	}
	if bad >= 2 && nout > 0 {
		wantErrs = 1
	}
	for next < nin || errs < wantErrs {
		it := l.next()
		sym.Assert(it.open, "the loop ends by itself")
		if it.err != nil {
			errs++
			sym.Assert(errs <= wantErrs, "an error is reported for no reason")
			continue
		}
		sym.Assert(next < nin, "an item is delivered twice")
		switch kind {
		case 0:
			sym.Assert(isConn(it.recv, next), "arriving chunks are lost, repeated or reordered")
		case 1:
			sym.Assert(isStream(it.cmd, next), "arriving chunks are lost, repeated or reordered")
		default:
			sym.Assert(isData(it.dat, byte(8+next)), "arriving chunks are lost, repeated or reordered")
		}
		next++
	}
	<-sent
	l.close()
	<-done
	sym.Cover("closed")
	first := 0
	if bad >= 2 {
		first = 1
	}
	n := max(nout-first, 0)
	sym.Assert(len(w.got) == n, "items sent are lost or written twice")
	for i, c := range w.got {
		l.sent(c, byte(16+first+i))
	}
}

type markFrame struct {
	data.DataFrame
	mark byte
}

func (m *markFrame) Marshal() (*chunk.Chunk, error) {
	if m.mark == 0xff {
		return nil, errAmf
	}
	return msgChunk(4, 1, 0x12, []byte{m.mark}), nil
}

// sendAny is send for items that carry their own mark.
func (l *loop) sendAny(mark byte) {
	switch l.kind {
	case 0:
		var err error
		if mark == 0xff {
			err = errAmf
		}
		l.nc.Out() <- rawBody{[]byte{mark}, err}
	case 1:
		st := stream.NewStatus()
		st.Arguments.Add(string([]byte{mark}), nil)
		l.ns.Status() <- st
	default:
		l.ds.In() <- &markFrame{mark: mark}
	}
}

// statusMarks makes a status marshal to the byte its first argument is named by.
func statusMarks() {
	encoding.MarshalFn = func(v interface{}) ([]byte, error) {
		k := v.(*stream.Status).Arguments.Keys[0]
		if k[0] == 0xff {
			return nil, errAmf
		}
		return []byte{k[0]}, nil
	}
}

// A close at any moment while chunks arrive and consumers read.
//
//verif:property C29
//verif:bounds each of the three loops; up to 2 arriving chunks, of which the first may be undecodable in any of the ways there are, the end of input or none, and a close at any time; every schedule
//verif:mode full race noobs
//verif:shards 6 6
func LoopCloseAny() {
	x := sym.Choose("loop", 6)
	kind, end := x%3, x/3
	bad := sym.Choose("bad", 1+len(badCodes[kind]))
	nin := sym.Choose("nin", 3)
	w := &sink{}
	l := newLoop(kind, w)
	var seen []byte
	abstractAMF(&seen)
	done := make(chan struct{})
	go func() { l.listen(); close(done) }()
	go func() {
		for i := 0; i < nin; i++ {
			code := i
			if bad > 0 && i == 0 {
				code = badCodes[kind][bad-1]
			}
			c, _ := l.arriving(code, byte(i))
			select {
			case l.chunks <- c:
			case <-done:
				return
			}
		}
		if end == 1 {
			close(l.chunks)
		}
	}()
	closed := make(chan struct{})
	go func() { l.close(); close(closed) }()
	next, errs := 0, 0
	for {
		it := l.nextOr(done)
		if !it.open {
			break
		}
		if it.err != nil {
			errs++
			sym.Assert(bad > 0 && nin > 0 && errs == 1 && next == 0, "an error is reported twice or for no reason")
			next = 1
			continue
		}
		sym.Assert(next < nin && (bad == 0 || next > 0), "an item is delivered twice or for no reason")
		switch kind {
		case 0:
			sym.Assert(isConn(it.recv, next), "arriving chunks are lost, repeated or reordered")
		case 1:
			sym.Assert(isStream(it.cmd, next), "arriving chunks are lost, repeated or reordered")
		default:
			sym.Assert(isData(it.dat, byte(8+next)), "arriving chunks are lost, repeated or reordered")
		}
		next++
	}
	<-closed
	sym.Cover("closed")
	sym.Quiesce()
	sym.Assert(sym.Live() == 0 || end == 0, "goroutines outlive the loop")
	sym.Assert(len(w.got) == 0, "something is written that nobody sent")
	if kind == 1 {
		_, ok := <-l.ns.In()
		_, ok2 := <-l.ns.Errs()
		sym.Assert(!ok && !ok2, "closing the loop does not close its channels")
	}
	if kind == 2 {
		_, ok := <-l.ds.Out()
		_, ok2 := <-l.ds.Errs()
		sym.Assert(!ok && !ok2, "closing the loop does not close its channels")
	}
}

// nextOr is next until done.
func (l *loop) nextOr(done <-chan struct{}) (it item) {
	recv, cmd, dat := l.recv, l.cmd, l.dat
	for {
		select {
		case it.recv, it.open = <-recv:
			recv = nil
		case it.cmd, it.open = <-cmd:
			cmd = nil
		case it.dat, it.open = <-dat:
			dat = nil
		case it.err, it.open = <-l.errs:
			if !it.open {
				l.errs = nil
			}
		case <-done:
			return item{}
		}
		if it.open {
			return it
		}
	}
}
