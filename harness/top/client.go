package top

import (
	"crypto/rand"
	"errors"
	"io"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

const (
	packet = 1536
	whole  = 1 + 2*packet
)

var errConn = errors.New("connection failed")

type markRand struct{ n byte }

func (r *markRand) Read(b []byte) (int, error) {
	for i := range b {
		r.n++
		b[i] = r.n
	}
	return len(b), nil
}

// peer is the connection of a client that is to handshake and then sends tail.
type peer struct {
	version byte
	wrong   int // challenge byte answered wrongly, -1 for none
	limit   int // bytes available before the connection fails, -1: all
	end     error
	tail    []byte
	more    chan []byte // what comes after tail
	pos     int
	out     []byte
}

func (p *peer) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.limit >= 0 && p.pos >= p.limit {
		if p.end != nil {
			return 0, p.end
		}
		return 0, errConn
	}
	if p.pos >= whole+len(p.tail) {
		if p.more == nil {
			return 0, io.EOF
		}
		t, ok := <-p.more
		if !ok {
			return 0, io.EOF
		}
		p.tail = append(p.tail, t...)
	}
	// C2 comes once S1 is there, the rest may come with it
	end := whole + len(p.tail)
	if p.pos <= packet {
		end = 1 + packet
	}
	if p.limit >= 0 {
		end = min(end, p.limit)
	}
	n := min(len(b), end-p.pos)
	for i := 0; i < n; i++ {
		j := p.pos + i
		switch {
		case j == 0:
			b[i] = p.version
		case j < 1+packet+8:
			b[i] = byte(j)
		case j < whole:
			b[i] = p.out[1+8+j-(1+packet+8)]
			if j-(1+packet+8) == p.wrong {
				b[i] ^= 1
			}
		default:
			b[i] = p.tail[j-whole]
		}
	}
	p.pos += n
	return n, nil
}

func (p *peer) Write(b []byte) (int, error) {
	p.out = append(p.out, b...)
	return len(b), nil
}

func newPeer() *peer {
	rand.Reader = &markRand{}
	return &peer{version: 3, wrong: -1, limit: -1}
}

// wire is a message of one chunk, format 0.
func wire(csid byte, typ byte, msid byte, data []byte) []byte {
	b := []byte{csid, 0, 0, 0, 0, 0, byte(len(data)), typ, msid, 0, 0, 0}
	return append(b, data...)
}

// sample is a message for one of the consumers of a client.
type sample struct {
	csid, typ, msid byte
	to              int // 0 connection, 1 stream, 2 media, 3 control, 4 nobody
}

var samples = []sample{
	{2, 3, 0, 3},
	{3, 0x14, 0, 0},
	{4, 0x14, 1, 1},
	{4, 8, 1, 2},
	{8, 0x14, 0, 0},
	{8, 0x14, 1, 1},
	{5, 0x14, 1, 4},
}

func (s sample) wire(i, mark byte) []byte {
	if s.to == 3 {
		return wire(s.csid, s.typ, s.msid, []byte{0, 0, i, mark})
	}
	return wire(s.csid, s.typ, s.msid, []byte{i, mark})
}

// Every sequence of messages after the handshake.
//
//verif:property C30
//verif:bounds every sequence of 3 (thorough: 4) messages on chunk streams 2, 3, 4, 5 and 8 of 2 or 4 bytes (the last one arbitrary), sent right behind the handshake or once it is over; then an outgoing control message and an outgoing response
//verif:steps 20000000
//verif:shards 7 7
func ClientWired() {
	k := sym.Param(3, 4)
	var kinds []int
	for i := 0; i < k; i++ {
		kinds = append(kinds, sym.Choose("kind", len(samples)))
	}
	late := sym.Choose("late", 2) == 1
	p := newPeer()
	p.more = make(chan []byte)
	abstractAMFNoRecord()
	var marks []byte
	var all []byte
	for i, x := range kinds {
		m := sym.Byte("mark")
		sym.Assume(m != 0xff)
		marks = append(marks, m)
		all = append(all, samples[x].wire(byte(i), m)...)
	}
	if !late {
		p.tail = all
	}
	c := client.New(p)
	sym.Assert(c.Conn == io.ReadWriter(p), "a client is not bound to its connection")
	sym.Assert(p.pos == 0 && len(p.out) == 0, "a client talks before its handshake")
	sym.Assert(c.Handshake() == nil, "a correct handshake fails")
	go c.Controls().Recv()
	go c.Net().Dispatch(true)
	if late {
		p.more <- all
	}
	o := outletsOf(c.Net())
	want := 0
	for _, x := range kinds {
		if samples[x].to < 4 {
			want++
		}
	}
	next := map[[2]int]int{} // per chunk stream and consumer: messages seen
	for ; want > 0; want-- {
		r := o.takeClient(c.Controls())
		sym.Assert(r.err == nil, "an error is reported for no reason")
		// the first message for this consumer that has not been seen
		found := false
		for i, x := range kinds {
			s := samples[x]
			at := [2]int{int(s.csid), s.to}
			if s.to != r.to || next[at] > i {
				continue
			}
			ok := false
			switch s.to {
			case 0:
				ok = isConn(r.recv, i)
			case 1:
				ok = isStream(r.cmd, i)
			case 2:
				m, is := r.dat.(media)
				ok = is && m.Control() == byte(i)
				if ok {
					sym.Assert(len(m.Payload()) == 1 && m.Payload()[0] == marks[i], "a message arrives with other bytes")
				}
			case 3:
				a, is := r.ctl.(*control.Acknowledgement)
				ok = is && a.SequenceNumber>>8 == uint32(i)
				if ok {
					sym.Assert(a.SequenceNumber == uint32(i)<<8|uint32(marks[i]), "a control message arrives with another value")
				}
			}
			if !ok {
				continue
			}
			for j := next[at]; j < i; j++ {
				sym.Assert(samples[kinds[j]].csid != s.csid || samples[kinds[j]].to != s.to, "messages of one chunk stream are reordered or lost")
			}
			next[at] = i + 1
			found = true
			break
		}
		sym.Assert(found, "a message reaches the wrong consumer, or twice")
	}
	sym.Cover("delivered")
	sym.Quiesce()
	sym.Assert(o.idle() && len(p.out) == whole, "something happens that nobody asked for")
	v := sym.Uint32("v")
	c.Controls().Out() <- &control.WindowAckSize{WindowAckSize: v}
	sym.Quiesce()
	out := p.out[whole:]
	sym.Assert(len(out) == 16, "an outgoing control message is not written")
	sym.Assert(eqBytes(out, wire(2, 5, 0, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})), "an outgoing control message is written wrongly")
	c.Net().NetConn().Out() <- rawBody{b: []byte{1, 2, 3}}
	sym.Quiesce()
	out = p.out[whole+16:]
	sym.Assert(len(out) == 15 && eqBytes(out, wire(3, 0x14, 0, []byte{1, 2, 3})), "an outgoing response is not written on the connection")
	sym.ObserveBytes("out", p.out[whole:])
}

// takeClient is take including the control stream; nothing arriving is a deadlock.
func (o *outlets) takeClient(s *control.Stream) (r relayed) {
	select {
	case r.ctl = <-s.In():
		r.to = 3
	case r.err = <-s.Errs():
		r.to = 3
	case r.recv = <-o.recv:
		r.to = 0
	case r.err = <-o.err0:
		r.to = 0
	case r.cmd = <-o.cmd:
		r.to = 1
	case r.err = <-o.err1:
		r.to = 1
	case r.dat = <-o.dat:
		r.to = 2
	case r.err = <-o.err2:
		r.to = 2
	}
	return r
}

func (o *outlets) idle() bool {
	select {
	case <-o.recv:
	case <-o.err0:
	case <-o.cmd:
	case <-o.err1:
	case <-o.dat:
	case <-o.err2:
	default:
		return true
	}
	return false
}

// A failed handshake starts nothing.
//
//verif:property C30
//verif:bounds every wrong version, a wrong answer to the challenge at a listed position, and connections that fail at every packet boundary and inside each packet; messages waiting behind the handshake
//verif:steps 20000000
func ClientHandshakeFails() {
	p := newPeer()
	p.tail = wire(2, 3, 0, []byte{0, 0, 0, 1})
	var want error
	switch sym.Choose("how", 3) {
	case 0:
		p.version = sym.Byte("version")
		sym.Assume(p.version != 3)
	case 1:
		p.wrong = []int{0, 1, 700, 1526, 1527}[sym.Choose("wrong", 5)]
	case 2:
		p.limit = []int{0, 1, 2, 1536, 1537, 1538, 3072}[sym.Choose("limit", 7)]
		p.end = failureOf(p.limit%5*3 + sym.Choose("error", 3))
		want = p.end
	}
	c := client.New(p)
	sym.Quiesce()
	before := sym.Live()
	err := c.Handshake()
	sym.Assert(err != nil, "a failed handshake is reported as success")
	if want != nil && (p.limit == 0 || p.limit == 1 || p.limit == 1537) {
		sym.Assert(err == want, "the error of the handshake is not the one returned")
	}
	sym.Cover("failed")
	sym.Quiesce()
	pos := p.pos
	sym.Assert(sym.Live() == before, "a failed handshake starts receiving")
	sym.Assert(pos <= whole, "a failed handshake reads on")
	if p.limit < 0 && p.wrong < 0 {
		sym.Assert(pos == 1 && len(p.out) == 0, "a client of another version is answered")
	}
}

// Messages for several consumers, every schedule.
//
//verif:property C30
//verif:bounds one control message and two (thorough: three) messages for the dispatcher; every schedule of the reader, the parser, the streams and the two consumers
//verif:mode full race noobs
//verif:steps 20000000
//verif:shards 6 6
func ClientAnySchedule() {
	k := sym.Param(2, 3)
	var kinds []int
	for i := 0; i < k; i++ {
		kinds = append(kinds, 1+sym.Choose("kind", 6))
	}
	p := newPeer()
	p.more = make(chan []byte)
	abstractAMFNoRecord()
	c := client.New(p)
	sym.Assert(c.Handshake() == nil, "a correct handshake fails")
	go c.Controls().Recv()
	var all []byte
	for i, x := range kinds {
		all = append(all, samples[x].wire(byte(i), 1)...)
	}
	p.more <- append(all, samples[0].wire(9, 9)...)
	go c.Net().Dispatch(true)
	o := outletsOf(c.Net())
	want := 1
	for _, x := range kinds {
		if samples[x].to < 4 {
			want++
		}
	}
	for ; want > 0; want-- {
		r := o.takeClient(c.Controls())
		sym.Assert(r.err == nil, "an error is reported for no reason")
		if r.to == 3 {
			a, ok := r.ctl.(*control.Acknowledgement)
			sym.Assert(ok && a.SequenceNumber == 0x909, "a control message arrives with another value")
		}
	}
	sym.Cover("delivered")
	sym.Quiesce()
	sym.Assert(o.idle(), "a message is delivered twice")
}
