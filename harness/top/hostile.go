package top

import (
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// handed is what came out of a client since it was last looked at.
func handed(o *outlets, s *control.Stream) (all []relayed) {
	for len(all) < 8 {
		sym.Quiesce()
		var r relayed
		select {
		case r.ctl = <-s.In():
			r.to = 3
		case r.err = <-s.Errs():
			r.to = 3
		case r.recv = <-o.recv:
			r.to = 0
		case r.err = <-o.err0:
			r.to = 0
		case r.cmd = <-o.cmd:
			r.to = 1
		case r.err = <-o.err1:
			r.to = 1
		case r.dat = <-o.dat:
			r.to = 2
		case r.err = <-o.err2:
			r.to = 2
		default:
			return all
		}
		all = append(all, r)
	}
	return all
}

// has tells whether a relayed thing holds a value rather than nothing at all.
func (r relayed) has() bool {
	return r.ctl != nil || r.recv != nil || r.cmd != nil || r.dat != nil
}

var csids = []byte{2, 3, 4, 5, 8}

// Whatever a peer sends after the handshake, the messages that follow are served.
//
//verif:property C38
//verif:bounds every sequence of 2 (thorough: 3) messages of arbitrary bytes, the first of 0..4, the others of 2 (thorough: 0, 2 or 4; off chunk stream 2 the first byte names the first or fourth command or none), of any type, message stream and timestamp, on chunk streams 2, 3, 4, 5 and 8 (Set Chunk Size only well-formed and of 16 and more); each with nothing, or exactly one value or error, for the one consumer it is for; then one good message for each consumer, and one out through each
//verif:mode oneorder
//verif:steps 40000000
//verif:shards 25 25
func HostileMessages() {
	x := sym.Choose("first", 25)
	hostile(sym.Param(2, 3), func(i int) (byte, int) {
		if i == 0 {
			return csids[x%5], x / 5
		}
		return csids[sym.Choose("csid", 5)], []int{2, 0, 4}[sym.Choose("n", sym.Param(1, 3))]
	})
}

// The same for longer messages.
//
//verif:property C38
//verif:bounds one message of 5..40 or 127, 128, 129 or 256 arbitrary bytes (thorough: and another of 5 or 6), of any type, message stream and timestamp, on chunk streams 2, 3, 4, 5 and 8; then one good message for each consumer, and one out through each
//verif:mode oneorder
//verif:steps 40000000
//verif:shards 10 10
func HostileLonger() {
	x := sym.Choose("first", 10)
	hostile(sym.Param(1, 2), func(i int) (byte, int) {
		if i > 0 {
			return csids[sym.Choose("csid", 5)], 5 + sym.Choose("n", 2)
		}
		k := x/5 + 2*sym.Choose("n", 20)
		if k < 36 {
			return csids[x%5], 5 + k
		}
		return csids[x%5], []int{127, 128, 129, 256}[k-36]
	})
}

// hostile sends k messages of the sizes and on the chunk streams picked.
func hostile(k int, pick func(int) (byte, int)) {
	abstractAMFNoRecord()
	c, p := connected()
	o := outletsOf(c.Net())
	for i := 0; i < k; i++ {
		csid, n := pick(i)
		typ, msid := sym.Byte("typ"), sym.Uint32("msid")
		ts := sym.Uint32("ts")
		sym.Assume(ts < 0xffffff)
		body := sym.Bytes("body", n)
		if n > 0 && csid != 2 {
			// the stand-in reads it as the number of a name
			sym.Assume(sym.Or(body[0] == 0, body[0] == 3, body[0] >= 0xf0))
		}
		if typ == 1 {
			sym.Assume(n == 4)
			if n == 4 {
				sym.Assume(sym.And(body[0] < 0x80, sym.Or(body[0] != 0, body[1] != 0, body[2] != 0, body[3] >= 16)))
			}
		}
		w := []byte{csid, byte(ts >> 16), byte(ts >> 8), byte(ts), 0, byte(n >> 8), byte(n), typ, byte(msid), byte(msid >> 8), byte(msid >> 16), byte(msid >> 24)}
		for len(body) > 128 {
			w = append(append(w, body[:128]...), 3<<6|csid)
			body = body[128:]
		}
		p.more <- append(w, body...)
		got := handed(o, c.Controls())
		sym.Assert(len(got) <= 1, "one message is handed out more than once")
		// which consumer it is for
		to := 4
		switch {
		case typ == 1:
		case csid == 2:
			to = 3
		case csid == 3 || csid == 8 && msid == 0:
			to = 0
		case typ == 0x14 && (csid == 4 || csid == 8 && msid == 1):
			to = 1
		case csid == 4 && (typ == 8 || typ == 9 || typ == 0x12):
			to = 2
		}
		if to == 4 {
			sym.Cover("for nobody")
			sym.Assert(len(got) == 0, "a message for nobody is handed out")
			continue
		}
		sym.Assert(len(got) == 1, "a message, or the error it makes, gets lost")
		sym.Assert(got[0].to == to, "a message reaches the wrong consumer")
		sym.Assert((got[0].err != nil) != got[0].has(), "neither a value nor an error, or both, are handed out")
		if got[0].err != nil {
			sym.Cover("error")
		} else {
			sym.Cover("value")
		}
		if n == 0 {
			sym.Assert(got[0].err != nil, "a message without a body is handed out as a value")
		}
	}
	// everyone is still served
	for _, s := range samples[:4] {
		m := sym.Byte("mark")
		sym.Assume(m != 0xff)
		p.more <- s.wire(3, m)
		got := handed(o, c.Controls())
		sym.Assert(len(got) == 1 && got[0].to == s.to && got[0].err == nil && got[0].has(), "a good message after bad ones is not handed out")
		switch s.to {
		case 3:
			a, ok := got[0].ctl.(*control.Acknowledgement)
			sym.Assert(ok && a.SequenceNumber == 0x300|uint32(m), "a control message after bad ones arrives with another value")
		case 0:
			_, ok := got[0].recv.(*conn.FCPublishCommand)
			sym.Assert(ok, "a command after bad ones arrives as another")
		case 1:
			sym.Assert(isStream(got[0].cmd, 3), "a command after bad ones arrives as another")
		case 2:
			d, ok := got[0].dat.(media)
			sym.Assert(ok && d.Control() == 3 && len(d.Payload()) == 1 && d.Payload()[0] == m, "media after bad messages arrives with other bytes")
		}
	}
	sym.Assert(len(p.out) == whole, "something is written that nobody sent")
	c.Controls().Out() <- &control.WindowAckSize{WindowAckSize: 7}
	sym.Quiesce()
	c.Net().NetConn().Out() <- rawBody{b: []byte{1, 2, 3}}
	sym.Quiesce()
	out := p.out[whole:]
	sym.Assert(eqBytes(out, append(wire(2, 5, 0, []byte{0, 0, 0, 7}), wire(3, 0x14, 0, []byte{1, 2, 3})...)), "what is sent after bad messages is not written")
	sym.Cover("served")
}

// Any bytes at all.
//
//verif:property C38
//verif:bounds every string of 0..4 (thorough: 0..7) bytes after the handshake, whole or in two parts, then the end of the connection or silence; everything a client hands out is taken
//verif:mode oneorder
//verif:steps 40000000
//verif:shards 16 16
func HostileBytes() {
	x := sym.Choose("first", 16)
	n := sym.Param(4, 7) - sym.Choose("n", sym.Param(5, 8)) // longest first
	b := sym.Bytes("b", n)
	if n > 0 {
		sym.Assume(b[0]>>6 == byte(x&3))
	}
	cut := 0
	if n > 1 {
		cut = x >> 2 & 1 * n / 2
	}
	abstractAMFNoRecord()
	c, p := connected()
	o := outletsOf(c.Net())
	if cut > 0 {
		p.more <- b[:cut:cut]
		sym.Quiesce()
	}
	p.more <- b[cut:]
	got := handed(o, c.Controls())
	sym.Assert(len(got) <= n, "more is handed out than the bytes can hold")
	for _, r := range got {
		sym.Assert((r.err != nil) != r.has(), "neither a value nor an error, or both, are handed out")
	}
	if x>>3 == 1 {
		close(p.more)
		sym.Assert(len(handed(o, c.Controls())) == 0, "something is handed out at the end of the connection")
	}
	sym.Assert(len(p.out) == whole, "something is written that nobody sent")
	c.Controls().Out() <- &control.WindowAckSize{WindowAckSize: 7}
	sym.Quiesce()
	sym.Assert(eqBytes(p.out[whole:], wire(2, 5, 0, []byte{0, 0, 0, 7})), "what is sent after bad bytes is not written")
	sym.Cover("survived")
	sym.Observe("handed", uint64(len(got)))
}

// A Set Chunk Size that makes no sense is an error like any other: the messages behind it
// are served.
//
//verif:property C38
//verif:bounds every Set Chunk Size message with 0..5 arbitrary bytes on chunk stream 2 that is not well-formed, then an acknowledgement
//verif:steps 20000000
func HostileSetChunkSize() {
	n := sym.Choose("n", 6)
	b := sym.Bytes("body", n)
	if n == 4 {
		sym.Assume(eqBytes(b, []byte{0, 0, 0, 0}))
	}
	abstractAMFNoRecord()
	c, p := connected()
	o := outletsOf(c.Net())
	p.more <- wire(2, 1, 0, b)
	p.more <- wire(2, 3, 0, []byte{0, 0, 0, 7})
	got := handed(o, c.Controls())
	sym.Cover("sent")
	// the reader's error waits for someone to read the parser's errors, which a client
	// gives no access to
	sym.Known("client-scs", true)
	sym.Assert(len(got) > 0 && got[len(got)-1].to == 3 && got[len(got)-1].ctl != nil, "a malformed Set Chunk Size stops a client from receiving")
}
