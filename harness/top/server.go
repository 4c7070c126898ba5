package top

import (
	"errors"
	"net"
	"time"

	"github.com/WatchBeam/rtmp"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/server"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// conn is a connection that records who talks to it.
type conn0 struct {
	name    int
	reads   int
	version byte
	closed  int
}

func (c *conn0) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	c.reads++
	b[0] = c.version
	return 1, nil
}
func (c *conn0) Write(b []byte) (int, error)      { return len(b), nil }
func (c *conn0) Close() error                     { c.closed++; return nil }
func (c *conn0) LocalAddr() net.Addr              { return nil }
func (c *conn0) RemoteAddr() net.Addr             { return nil }
func (c *conn0) SetDeadline(time.Time) error      { return nil }
func (c *conn0) SetReadDeadline(time.Time) error  { return nil }
func (c *conn0) SetWriteDeadline(time.Time) error { return nil }

type accepted struct {
	c   *conn0
	err error
}

// listener accepts what it is given and, once closed, nothing more.
type listener struct {
	in     chan accepted
	closed chan struct{}
	stop   chan struct{}
	closes int
	cerr   error
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case a := <-l.in:
		if a.err != nil {
			return nil, a.err
		}
		return a.c, nil
	case <-l.closed:
		<-l.stop // a server may ask forever; the harness has seen enough
		return nil, net.ErrClosed
	}
}

func (l *listener) Close() error {
	l.closes++
	if l.closes == 1 {
		close(l.closed)
	}
	return l.cerr
}
func (l *listener) Addr() net.Addr { return nil }

var errAccept = [3]error{errors.New("accept failed"), errors.New("too many open files"), net.ErrClosed}

// newServer makes a server on a listener of the harness.
func newServer(viaRoot bool) (*server.Server, *listener) {
	l := &listener{in: make(chan accepted), closed: make(chan struct{}), stop: make(chan struct{})}
	bound := 0
	net.VerifListen = func(network, address string) (net.Listener, error) {
		bound++
		sym.Assert(network == "tcp" && address == "127.0.0.1:1935", "the server listens elsewhere")
		return l, nil
	}
	var s *server.Server
	var err error
	if viaRoot {
		s, err = rtmp.NewServer("127.0.0.1:1935")
	} else {
		s, err = server.New("127.0.0.1:1935")
	}
	net.VerifListen = nil
	sym.Assert(err == nil && s != nil && bound == 1, "a server on an address that can be bound is not made")
	return s, l
}

// bound checks that a client talks to the connection: it is the one it names, and the
// one a handshake reads from.
func boundTo(c *client.Client, k *conn0) {
	sym.Assert(c != nil && c.Conn == net.Conn(k), "a client is bound to another connection")
	sym.Assert(k.reads == 0, "a connection is read from before its client's handshake")
	sym.Assert(c.Handshake() != nil, "a client of another version is accepted")
	sym.Assert(k.reads >= 1, "a client's handshake reads from another connection")
}

// Every history of connections and failures.
//
//verif:property C32
//verif:bounds every sequence of 5 (thorough: 8) connections and accept failures of three kinds; then a close, which succeeds or fails
//verif:shards 2 2
func ServerHistory() {
	s, l := newServer(sym.Choose("root", 2) == 1)
	go s.Accept()
	for i, k := 0, sym.Param(5, 8); i < k; i++ {
		op := sym.Choose("op", 3)
		if op == 0 {
			k := &conn0{name: i, version: 9}
			l.in <- accepted{c: k}
			select {
			case c := <-s.Clients():
				boundTo(c, k)
				sym.Cover("client")
			case <-s.Errs():
				sym.Fail("an accepted connection is reported as an error")
			}
		} else {
			e := troubleOf(3*i + op)
			l.in <- accepted{err: e}
			select {
			case <-s.Clients():
				sym.Fail("a failure to accept yields a client")
			case err := <-s.Errs():
				sym.Assert(err == e, "a failure to accept is reported as another error")
				sym.Cover("error")
			}
		}
		sym.Quiesce()
		select {
		case c, ok := <-s.Clients():
			sym.Assert(ok && c == nil, "a client is handed out twice or for no reason")
			sym.Fail("the server ends by itself")
		case _, ok := <-s.Errs():
			sym.Assert(!ok, "an error is reported twice or for no reason")
			sym.Fail("the server ends by itself")
		default:
		}
		sym.Assert(l.closes == 0, "the server closes its socket by itself")
	}
	if sym.Choose("close", 2) == 1 {
		l.cerr = troubles[sym.Choose("error", len(troubles))]
	}
	sym.Assert(s.Close() == l.cerr, "closing the server reports another result than closing its socket")
	sym.Assert(l.closes == 1, "closing the server does not close its socket")
	sym.Cover("closed")
}

// Connections that arrive faster than clients are taken.
//
//verif:property C32
//verif:bounds up to 4 connections and failures arriving at once, clients and errors taken by separate consumers; every schedule
//verif:mode full race noobs
func ServerAnySchedule() {
	n := sym.Choose("n", 5)
	kinds := sym.Choose("kinds", 1<<n)
	s, l := newServer(false)
	go s.Accept()
	var conns []*conn0
	var script []accepted
	errs := 0
	for i := 0; i < n; i++ {
		if kinds>>i&1 == 0 {
			k := &conn0{name: i, version: 9}
			conns = append(conns, k)
			script = append(script, accepted{c: k})
		} else {
			script = append(script, accepted{err: errAccept[errs%2]})
			errs++
		}
	}
	go func() {
		for _, a := range script {
			l.in <- a
		}
	}()
	got := make(chan struct{})
	go func() {
		for i := 0; i < errs; i++ {
			sym.Assert(<-s.Errs() == errAccept[i%2], "failures to accept are lost, reordered or altered")
		}
		close(got)
	}()
	for _, k := range conns {
		boundTo(<-s.Clients(), k)
	}
	<-got
	sym.Cover("all")
	sym.Assert(s.Close() == nil && l.closes == 1, "closing the server does not close its socket")
	select {
	case c := <-s.Clients():
		sym.Assert(c == nil, "a client is handed out for no connection")
	default:
	}
}

// An address that cannot be bound yields an error and no server.
//
//verif:property C32
//verif:bounds any failure to listen
func ServerBind() {
	e := troubles[sym.Choose("error", len(troubles))]
	net.VerifListen = func(network, address string) (net.Listener, error) { return nil, e }
	s, err := server.New("nowhere")
	s2, err2 := rtmp.NewServer("nowhere")
	net.VerifListen = nil
	sym.Assert(err == e && s == nil, "a server is made on an address that cannot be bound, or the failure is altered")
	sym.Assert(err2 == e && s2 == nil, "a server is made on an address that cannot be bound, or the failure is altered")
	sym.Cover("refused")
}

// A long life of a server.
//
//verif:property C32
//verif:bounds 100 (thorough: 400) connections and failures in turn
//verif:steps 60000000
func ServerLong() {
	s, l := newServer(false)
	go s.Accept()
	for i, k := 0, sym.Param(100, 400); i < k; i++ {
		if i%7 == 3 || i > 40 && i < 60 {
			l.in <- accepted{err: troubleOf(i)}
			sym.Assert(<-s.Errs() == troubleOf(i), "a failure to accept is reported as another error")
			continue
		}
		c := &conn0{name: i, version: 9}
		l.in <- accepted{c: c}
		select {
		case x := <-s.Clients():
			boundTo(x, c)
		case <-s.Errs():
			sym.Fail("an accepted connection is reported as an error")
		}
	}
	sym.Assert(s.Close() == nil && l.closes == 1, "closing the server does not close its socket")
	sym.Cover("closed")
}
