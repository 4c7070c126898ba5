package top

import (
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// slow is a peer whose connection takes what it is given in one go, which takes time.
type slow struct {
	*peer
	on    bool
	calls chan []byte
}

func (p *slow) Write(b []byte) (int, error) {
	if !p.on {
		return p.peer.Write(b)
	}
	took := append([]byte(nil), b[:len(b)/2]...)
	sym.Yield()
	p.calls <- append(took, b[len(b)/2:]...)
	return len(b), nil
}

// The four senders of a client at work at once.
//
//verif:property C06
//verif:bounds a control message, a command response, a status and media of 1 or 129 bytes (thorough: and one more of them), sent at once over one client; every schedule of its loops and writers
//verif:assume the AMF0 stand-in returns a payload of its own for each message
//verif:mode full race noobs
//verif:steps 20000000
//verif:shards 2 8
func ClientOneUnit() {
	x := sym.Choose("pick", sym.Param(2, 8))
	p := &slow{peer: newPeer(), calls: make(chan []byte, 8)}
	p.more = make(chan []byte)
	encoding.MarshalFn = func(v interface{}) ([]byte, error) { return []byte{9, 8, 7}, nil }
	c := client.New(p)
	sym.Assert(c.Handshake() == nil, "a correct handshake fails")
	p.on = true
	body := []byte{0xaf}
	if x%2 == 1 {
		body = make([]byte, 129)
		for i := range body {
			body[i] = byte(i)
		}
	}
	pick := []int{0, 1, 2, 3}
	if sym.Param(0, 1) == 1 {
		pick = append(pick, x/2)
	}
	var want [][]byte
	// the loops of the senders only: nothing arrives
	for _, k := range pick[:4] {
		switch k {
		case 0:
			go c.Controls().Recv()
		case 1:
			go c.Net().NetConn().Listen()
		case 2:
			go c.Net().NetStream().Listen()
		case 3:
			go c.Net().DataStream().Recv()
		}
	}
	for _, k := range pick {
		switch k {
		case 0:
			c.Controls().Out() <- &control.WindowAckSize{WindowAckSize: 7}
			want = append(want, wire(2, 5, 0, []byte{0, 0, 0, 7}))
		case 1:
			c.Net().NetConn().Out() <- rawBody{b: []byte{1, 2, 3}}
			want = append(want, wire(3, 0x14, 0, []byte{1, 2, 3}))
		case 2:
			c.Net().NetStream().Status() <- stream.NewStatus()
			want = append(want, wire(5, 0x14, 1, append(append([]byte(nil), stream.OnStatusCommandHeader...), 9, 8, 7)))
		case 3:
			a, err := data.DefaultParser.Parse(msgChunk(4, 1, 8, body))
			sym.Assert(err == nil, "an audio message is rejected")
			c.Net().DataStream().In() <- a
			want = append(want, wire(4, 8, 1, body))
		}
	}
	var got [][]byte
	for range want {
		got = append(got, <-p.calls)
	}
	sym.Cover("all written")
	for _, w := range want {
		n := 0
		for _, g := range got {
			if len(g) == len(w) && eqBytes(g, w) {
				n++
			}
		}
		twice := 0
		for _, v := range want {
			if len(v) == len(w) && eqBytes(v, w) {
				twice++
			}
		}
		sym.Assert(n == twice, "a message does not reach the transport in one piece")
	}
	sym.Quiesce()
	sym.Assert(len(p.calls) == 0, "something else reaches the transport")
}
