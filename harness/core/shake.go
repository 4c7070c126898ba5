package core

import (
	"crypto/rand"
	"errors"
	"io"

	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// symRand is a source of arbitrary "random" bytes.
type symRand struct{}

func (symRand) Read(b []byte) (int, error) { sym.Fill("rand", b); return len(b), nil }

const (
	packet = 1536
	whole  = 1 + 2*packet
)

// peer is the connection to a client of the handshake. The bytes of C2 that echo the
// challenge are taken from what the server wrote, with diff added to byte at.
type peer struct {
	pre   []byte // C0, C1 and the 8 bytes of C2 before the challenge
	tail  []byte // what follows the handshake
	at    int
	diff  byte
	limit int // bytes available before the connection ends (-1: no limit)
	end   error
	werr  error // what the transport fails with beyond room
	pos   int
	out   []byte
	room  int // bytes the transport accepts
	split []int
}

func (p *peer) at0(i int) byte {
	switch {
	case i < len(p.pre):
		return p.pre[i]
	case i < whole:
		j := i - len(p.pre)
		sym.Assert(len(p.out) >= 1+packet, "the peer's second packet is awaited before the server's challenge was sent")
		b := p.out[1+8+j]
		if j == p.at {
			b += p.diff
		}
		return b
	default:
		return p.tail[i-whole]
	}
}

func (p *peer) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	avail := whole + len(p.tail)
	if p.limit >= 0 {
		avail = min(avail, p.limit)
	}
	hi := avail
	for _, s := range p.split {
		if p.pos < s && s < hi {
			hi = s
		}
	}
	n := min(len(b), hi-p.pos)
	if n <= 0 {
		return 0, p.end
	}
	for i := 0; i < n; i++ {
		b[i] = p.at0(p.pos + i)
	}
	p.pos += n
	return n, nil
}

func (p *peer) Write(b []byte) (int, error) {
	n := min(len(b), p.room)
	for i := 0; i < n; i++ {
		if len(p.out) == 0 {
			sym.Assert(p.pos >= 1, "the server sends its version before reading the client's")
		} else if len(p.out) == 1 {
			sym.Assert(p.pos >= 1+packet, "the server sends its packets before reading the client's")
		}
		p.out = append(p.out, b[i])
	}
	p.room -= n
	if n < len(b) {
		return n, p.werr
	}
	return n, nil
}

func newPeer(version byte) *peer {
	rand.Reader = symRand{}
	return &peer{pre: cat([]byte{version}, sym.Bytes("c1", packet), sym.Bytes("c2", 8)), tail: sym.Bytes("tail", 3), at: -1, limit: -1, end: io.EOF, werr: errSink, room: 1 << 20}
}

// The whole transcript of a successful handshake.
//
//verif:property C19
//verif:bounds every C1, every server challenge, every C2 times; the peer's bytes cut at up to two places around every packet and field boundary
//verif:steps 20000000
func ShakeTranscript() {
	p := newPeer(3)
	cuts := []int{0, 1, 2, 3, 5, 7, 9, 10, 700, 1536, 1537, 1538, 1541, 1545, 1546, 3072, 3073}
	a := sym.Choose("cut", len(cuts))
	p.split = []int{cuts[a]}
	if k := sym.Choose("second", 3); k > 0 {
		p.split = append(p.split, []int{0, 1537, 3000}[k])
	}
	err := handshake.With(&handshake.Param{Conn: p}).Handshake()
	sym.Assert(err == nil, "a correct handshake fails")
	sym.Cover("success")
	sym.Assert(p.pos == whole, "the handshake consumes other than 3073 bytes")
	sym.Assert(len(p.out) == whole, "the handshake writes other than 3073 bytes")
	sym.Assert(p.out[0] == 3, "the server does not answer with version 3")
	s2 := p.out[1+packet:]
	sym.Assert(eqBytes(s2[:4], p.pre[1:5]), "S2 does not echo the time of C1")
	sym.Assert(eqBytes(s2[8:], p.pre[9:1+packet]), "S2 does not echo the challenge of C1")
	sym.ObserveBytes("s2", s2[:16])
}

// The peer's bytes arriving one by one around a place.
//
//verif:property C19
//verif:bounds every C1 and server challenge; single bytes for up to 12 bytes before and after the start of the handshake, of C1's challenge, of C2 and of its challenge, and at the end
//verif:steps 20000000
func ShakeTrickle() {
	p := newPeer(3)
	at := []int{0, 9, 1537, 1545, 3073}[sym.Choose("at", 5)]
	for i := at - 12; i <= at+12; i++ {
		if i > 0 && i <= whole {
			p.split = append(p.split, i)
		}
	}
	err := handshake.With(&handshake.Param{Conn: p}).Handshake()
	sym.Assert(err == nil, "a correct handshake fails")
	sym.Cover("success")
	sym.Assert(p.pos == whole && len(p.out) == whole, "the handshake consumes or writes other than 3073 bytes")
	sym.Assert(eqBytes(p.out[1+packet+8:], p.pre[9:1+packet]), "S2 does not echo the challenge of C1")
}

// Any other version is refused before anything is sent.
//
//verif:property C20
//verif:bounds every first byte other than 3
func ShakeVersion() {
	v := sym.Byte("version")
	sym.Assume(v != 3)
	p := newPeer(v)
	err := handshake.With(&handshake.Param{Conn: p}).Handshake()
	sym.Assert(err != nil, "another version is accepted")
	sym.Assert(len(p.out) == 0, "something is sent to a client of another version")
	sym.Assert(p.pos == 1, "more than the version is read from a client of another version")
	sym.Cover("refused")
}

// A version sequence supporting another version refuses all but that.
//
//verif:property C20
//verif:bounds every supported version and every first byte
func ShakeOtherVersion() {
	v, s := sym.Byte("version"), sym.Byte("supported")
	seq := handshake.NewVersionSequence()
	sym.Assert(seq.Supported == 3, "the default version is not 3")
	seq.Supported = s
	err := seq.Read(&src{b: []byte{v}})
	sym.Assert((err == nil) == (v == s), "a version is accepted other than the supported one, or that one refused")
	if err == nil {
		sym.Cover("accepted")
		w := &buf{}
		sym.Assert(seq.WriteTo(w) == nil && len(w.b) == 1 && w.b[0] == s, "the server does not answer with the supported version")
	} else {
		sym.Cover("refused")
	}
}

// A second packet that differs from the challenge in any byte is refused.
//
//verif:property C20
//verif:bounds every C1 and server challenge; C2 arbitrary except that its challenge is not the server's
//verif:steps 20000000
func ShakeMismatch() {
	rand.Reader = symRand{}
	seq := handshake.NewClientAckSequence()
	sym.Fill("s1", seq.S1.Payload[:])
	next := seq.Next()
	c2 := sym.Bytes("c2", packet)
	same := eqBytes(c2[8:], seq.S1.Payload[:])
	err := next.Read(&src{b: c2})
	if same {
		sym.Cover("equal")
		sym.Assert(err == nil, "the right challenge is refused")
	} else {
		sym.Cover("different")
		sym.Assert(err == handshake.MismatchedChallengeErr, "a wrong challenge is not refused as such")
	}
	sym.Assert(next.Next() == nil, "the handshake goes on after C2")
}

// The whole handshake with a C2 that differs in one byte.
//
//verif:property C20
//verif:bounds every C1 and server challenge; C2 right but for any nonzero change of byte 0, 1, 700, 1526 or 1527 of its challenge
//verif:steps 20000000
func ShakeOneByte() {
	p := newPeer(3)
	p.at = []int{0, 1, 700, 1526, 1527}[sym.Choose("at", 5)]
	p.diff = sym.Byte("diff")
	sym.Assume(p.diff != 0)
	err := handshake.With(&handshake.Param{Conn: p}).Handshake()
	sym.Assert(err == handshake.MismatchedChallengeErr, "a wrong challenge is not refused as such")
	sym.Cover("refused")
}

// A connection that ends anywhere fails the handshake.
//
//verif:property C20
//verif:bounds the connection ends, with io.EOF or one of two other errors, at byte 0..12, 700, 1530..1550, 3000 and 3060..3072 (thorough: at every byte)
//verif:steps 20000000
//verif:shards 8 16
func ShakeEnds() {
	p := newPeer(3)
	var at []int
	for i := 0; i < whole; i++ {
		if sym.Param(0, 1) == 1 || i <= 12 || i == 700 || (i >= 1530 && i <= 1550) || i == 3000 || i >= 3060 {
			at = append(at, i)
		}
	}
	p.limit = at[sym.Choose("at", len(at))]
	if k := sym.Choose("end", 3); k > 0 {
		p.end = failureOf(2*p.limit + k)
	}
	err := handshake.With(&handshake.Param{Conn: p}).Handshake()
	sym.Assert(err != nil, "a handshake succeeds on a connection that ended early")
	if p.end != io.EOF {
		sym.Assert(err == p.end, "the connection's error is not the one returned")
	}
	sym.Assert(p.pos == p.limit, "the handshake fails before the connection ends")
	sym.Cover("failed")
	sym.Observe("out", uint64(len(p.out)))
}

// A transport that stops accepting bytes fails the handshake.
//
//verif:property C21
//verif:bounds the transport fails after 0..12, 1530..1550, 3000 or 3060..3072 bytes (thorough: after every number of bytes)
//verif:steps 20000000
//verif:shards 8 16
func ShakeWriteFails() {
	p := newPeer(3)
	var at []int
	for i := 0; i < whole; i++ {
		if sym.Param(0, 1) == 1 || i <= 12 || (i >= 1530 && i <= 1550) || i == 3000 || i >= 3060 {
			at = append(at, i)
		}
	}
	p.room = at[sym.Choose("at", len(at))]
	before := p.room
	p.werr = troubleOf(before)
	err := handshake.With(&handshake.Param{Conn: p}).Handshake()
	sym.Assert(err == p.werr, "a failed transport write is not reported")
	sym.Assert(len(p.out) == before, "something is written after a failed write")
	sym.Assert(p.pos <= 1+packet && (before > 0 || p.pos == 1), "something is read after a failed write")
	sym.Cover("failed")
}

// step is a handshake step of a test chain.
type step struct {
	log        *[]int
	i          int
	rerr, werr error
	next       *step
	conn       io.ReadWriter
}

func (s *step) Read(r io.Reader) error {
	*s.log = append(*s.log, s.i*3)
	sym.Assert(r == s.conn, "a step is not given the connection to read from")
	return s.rerr
}

func (s *step) WriteTo(w io.Writer) error {
	*s.log = append(*s.log, s.i*3+1)
	sym.Assert(w == s.conn, "a step is not given the connection to write to")
	return s.werr
}

func (s *step) Next() handshake.Sequence {
	*s.log = append(*s.log, s.i*3+2)
	if s.next == nil {
		return nil
	}
	return s.next
}

// Chains of steps of any length, with any step failing.
//
//verif:property C21
//verif:bounds chains of 1..6 steps; any of them failing to read or write, or none; seventeen kinds of errors
func ShakeChain() {
	n := 1 + sym.Choose("n", 6)
	var log []int
	conn := &peer{}
	e := errors.New("step failed")
	fail := sym.Choose("fail", 2*n+1) - 1
	if fail >= 0 {
		e = troubles[sym.Choose("error", len(troubles))]
	}
	steps := make([]*step, n)
	for i := n - 1; i >= 0; i-- {
		steps[i] = &step{log: &log, i: i, conn: conn}
		if i+1 < n {
			steps[i].next = steps[i+1]
		}
		if fail == 2*i {
			steps[i].rerr = e
		}
		if fail == 2*i+1 {
			steps[i].werr = e
		}
	}
	err := handshake.With(&handshake.Param{Conn: conn, Initial: steps[0]}).Handshake()
	var want []int
	for i := 0; i < n; i++ {
		want = append(want, 3*i)
		if fail == 2*i {
			break
		}
		want = append(want, 3*i+1)
		if fail == 2*i+1 {
			break
		}
		want = append(want, 3*i+2)
	}
	if fail >= 0 {
		sym.Cover("failed")
		sym.Assert(err == e, "the handshake does not end with the error of the failing step")
	} else {
		sym.Cover("success")
		sym.Assert(err == nil, "the handshake fails although every step succeeds")
	}
	sym.Assert(len(log) == len(want), "steps are skipped, repeated or run after a failure")
	for i := range want {
		sym.Assert(log[i] == want[i], "steps are not read, written and continued in order")
	}
	sym.Observe("steps", uint64(len(log)))
}
