package top

import (
	"bytes"
	"io"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

// markingAMF makes the stand-in codec read a command name as a length and its bytes, and
// a body as one byte, which it leaves in the command where there is room for it (0xff: an
// error). It keeps nothing itself.
func markingAMF() {
	name := func(r io.Reader) (string, error) {
		n, err := first(r)
		if err != nil {
			return "", err
		}
		if n == 0xff {
			return "", errAmf
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return "", err
		}
		return string(b), nil
	}
	amf0.DecodeFn = func(r io.Reader) (amf0.AmfType, error) {
		s, err := name(r)
		if err != nil {
			return nil, err
		}
		return amf0.NewString(s), nil
	}
	encoding.UnmarshalFn = func(r io.Reader, v interface{}) error {
		if h, ok := v.(*stream.CommandHeader); ok {
			s, err := name(r)
			h.Name = s
			return err
		}
		b, err := first(r)
		if err != nil {
			return err
		}
		if b == 0xff {
			return errAmf
		}
		s := string([]byte{b})
		switch c := v.(type) {
		case *conn.ConnectCommand:
			c.Metadata.Add("mark", amf0.NewString(s))
		case *conn.CreateStreamCommand:
			c.Metadata.Add("mark", amf0.NewString(s))
		case *conn.ReleaseCommand:
			c.StreamKey = s
		case *conn.FCPublishCommand:
			c.StreamKey = s
		case *conn.GetStreamLength:
			c.PlayPath = s
		case *stream.CommandPlay:
			c.PlayPath = s
		case *stream.CommandPlay2:
			c.Parameters = amf0.NewObject()
			c.Parameters.Add("mark", amf0.NewString(s))
		case *stream.CommandPublish:
			c.Name = s
		case *stream.CommandReceiveAudio:
			c.Successful = b == 1
		case *stream.CommandReceiveVideo:
			c.Successful = b == 1
		case *stream.CommandPause:
			c.Paused = b == 1
		case *data.DataFrame:
			c.Arguments.Add("mark", amf0.NewString(s))
		}
		return nil
	}
	encoding.MarshalFn = func(v interface{}) ([]byte, error) {
		switch c := v.(type) {
		case *conn.CreateStreamResponse:
			return append(make([]byte, 0, 8), c.ResponseType[0], 1), nil
		case *stream.Status:
			return append(make([]byte, 0, 8), byte(len(c.Arguments.Keys)), 2), nil
		case *data.DataFrame:
			return append(make([]byte, 0, 8), c.Type[0], 3), nil
		}
		return nil, errAmf
	}
}

// paired tells whether p holds the mark b and nothing else.
func paired(p *amf0.Paired, b byte) bool {
	if p == nil || len(p.Values) != 1 || len(p.Keys) != 1 {
		return false
	}
	s, ok := p.Values[0].(*amf0.String)
	return ok && p.Keys[0] == "mark" && len(*s) == 1 && (*s)[0] == b
}

func one(s string, b byte) bool { return len(s) == 1 && s[0] == b }

// marked tells whether a command or frame holds what the body b decodes to, and only that.
func marked(v interface{}, b byte) bool {
	switch c := v.(type) {
	case *conn.ConnectCommand:
		return c.Metadata != nil && paired(c.Metadata.Paired, b) && c.TransactionId == 0
	case *conn.CreateStreamCommand:
		return c.Metadata != nil && paired(c.Metadata.Paired, b) && c.TransactionId == 0
	case *conn.ReleaseCommand:
		return one(c.StreamKey, b)
	case *conn.FCPublishCommand:
		return one(c.StreamKey, b)
	case *conn.GetStreamLength:
		return one(c.PlayPath, b)
	case *stream.CommandPlay:
		return one(c.PlayPath, b) && c.Live == 0
	case *stream.CommandPlay2:
		return c.Parameters != nil && paired(c.Parameters.Paired, b)
	case *stream.CommandPublish:
		return one(c.Name, b) && c.Type == ""
	case *stream.CommandReceiveAudio:
		return c.Successful == (b == 1)
	case *stream.CommandReceiveVideo:
		return c.Successful == (b == 1)
	case *stream.CommandPause:
		return c.Paused == (b == 1) && c.CutoffMillis == 0
	case *stream.CommandSeek:
		return c.OffsetMillis == 0
	case *stream.CommandDeleteStream:
		return c.StreamId == 0
	case *data.DataFrame:
		return c.Arguments != nil && paired(c.Arguments.Paired, b)
	}
	return false
}

// command parses a command by its name with one of the two parsers. It returns nil for none.
func command(which int, name string, body []byte) (interface{}, error) {
	if which == 0 {
		c, err := conn.DefaultParser.Parse(amf0.NewString(name), bytes.NewReader(body))
		if c == nil {
			return nil, err
		}
		sym.Assert(c.CanReceive(), "a command that was received says it cannot be")
		return c, err
	}
	c, err := stream.DefaultParser.Parse(bytes.NewReader(append(append([]byte{byte(len(name))}, name...), body...)))
	if c == nil {
		return nil, err
	}
	sym.Assert(c.IsCommand(), "a command says it is none")
	return c, err
}

func isCommand(which, k int, c interface{}) bool {
	if which == 0 {
		r, ok := c.(conn.Receivable)
		return ok && isConn(r, k)
	}
	s, ok := c.(stream.Command)
	return ok && isStream(s, k)
}

func namesOf(which int) []string {
	if which == 0 {
		return connNames[:5]
	}
	return streamNames[:8]
}

// Every name, known or not.
//
//verif:property C34
//verif:bounds both parsers; every name of 0..16 arbitrary bytes (16: longer than any known one); bodies of one arbitrary byte, empty bodies
//verif:shards 2 2
func NamesAny() {
	markingAMF()
	which := sym.Choose("which", 2)
	n := sym.Choose("len", 17)
	b := sym.Bytes("name", n)
	var body []byte
	if sym.Choose("body", 2) == 1 {
		body = sym.Bytes("mark", 1)
	}
	c, err := command(which, string(b), body)
	known := -1
	for k, name := range namesOf(which) {
		if len(name) == n && eqBytes(b, []byte(name)) {
			known = k
		}
	}
	if known < 0 {
		sym.Cover("unknown")
		sym.Assert(c == nil && err != nil, "a command of unknown name is accepted")
		return
	}
	if len(body) == 0 || body[0] == 0xff {
		sym.Cover("broken")
		sym.Assert(c == nil && err != nil, "a command whose body does not decode is accepted")
		return
	}
	sym.Cover("known")
	sym.Assert(err == nil && c != nil, "a command of known name is rejected")
	sym.Assert(isCommand(which, known, c), "a name yields the command of another")
	sym.Assert(marked(c, body[0]), "a command does not hold what its body says")
}

// Names that are almost known ones.
//
//verif:property C34
//verif:bounds both parsers; every known name with any one byte replaced by any other, inserted or left out, in other case (first letter, all letters), or cut short anywhere
//verif:shards 2 2
func NamesNear() {
	markingAMF()
	which := sym.Choose("which", 2)
	names := namesOf(which)
	k := sym.Choose("name", len(names))
	b := []byte(names[k])
	switch sym.Choose("change", 6) {
	case 0:
		i := sym.Choose("at", len(b))
		x := sym.Byte("x")
		sym.Assume(x != b[i])
		b[i] = x
	case 1:
		i := sym.Choose("at", len(b)+1)
		b = append(b[:i:i], append([]byte{sym.Byte("x")}, b[i:]...)...)
	case 2:
		i := sym.Choose("at", len(b))
		b = append(b[:i:i], b[i+1:]...)
	case 3:
		b = bytes.ToUpper(b)
	case 4:
		b[0] ^= 0x20
	case 5:
		b = b[:sym.Choose("at", len(b))]
	}
	c, err := command(which, string(b), []byte{7})
	for j, name := range names {
		if string(b) == name {
			sym.Cover("known after all")
			sym.Assert(err == nil && isCommand(which, j, c), "a command of known name is rejected")
			return
		}
	}
	sym.Cover("unknown")
	sym.Assert(c == nil && err != nil, "a command whose name is almost a known one is accepted")
}

// One command after another.
//
//verif:property C34
//verif:bounds both parsers; any three commands of known or unknown names with whole or broken bodies, all looked at when the last is parsed
//verif:shards 2 2
func NamesFresh() {
	markingAMF()
	which := sym.Choose("which", 2)
	names := append(append([]string(nil), namesOf(which)...), "nonsense")
	var got [3]interface{}
	var marks [3]byte
	var kinds [3]int
	for i := range got {
		k := sym.Choose("name", len(names))
		kinds[i] = k
		marks[i] = byte(i + 1)
		body := []byte{marks[i]}
		broken := k < len(names)-1 && i == 1 && sym.Choose("broken", 2) == 1
		if broken {
			body[0] = 0xff
		}
		c, err := command(which, names[k], body)
		if broken || k == len(names)-1 {
			sym.Assert(c == nil && err != nil, "a command of unknown name or with a broken body is accepted")
			kinds[i] = -1
			continue
		}
		sym.Assert(err == nil && c != nil, "a command of known name is rejected")
		got[i] = c
	}
	sym.Cover("three")
	for i, c := range got {
		if kinds[i] < 0 {
			continue
		}
		sym.Assert(isCommand(which, kinds[i], c), "a name yields the command of another")
		sym.Assert(marked(c, marks[i]), "a command changes when another is parsed")
		for j := range got[:i] {
			sym.Assert(got[j] != c, "two commands are one object")
		}
	}
}

// Parsers made by users of the package.
//
//verif:property C34
//verif:bounds parsers of the two kinds with two names of their own, one of which shadows a default one; known and unknown names
func NamesOwn() {
	markingAMF()
	name := []string{"mine", "play", "connect", "seek", "other"}[sym.Choose("name", 5)]
	made := 0
	if sym.Choose("which", 2) == 0 {
		p := conn.NewParser(map[string]conn.ReceviableFactory{
			"mine":    func() conn.Receivable { made++; return new(conn.ReleaseCommand) },
			"connect": func() conn.Receivable { made += 10; return new(conn.FCPublishCommand) },
		})
		c, err := p.Parse(amf0.NewString(name), bytes.NewReader([]byte{7}))
		switch name {
		case "mine":
			sym.Assert(err == nil && isConn(c, 2) && made == 1 && marked(c, 7), "a parser does not use its own factory")
		case "connect":
			sym.Assert(err == nil && isConn(c, 3) && made == 10 && marked(c, 7), "a parser does not use its own factory")
		default:
			sym.Assert(err != nil && c == nil && made == 0, "a parser accepts a name it was not given")
		}
	} else {
		p := stream.NewParser(map[string]stream.CommandFactory{
			"mine": func() stream.Command { made++; return new(stream.CommandPublish) },
			"seek": func() stream.Command { made += 10; return new(stream.CommandPlay) },
		})
		c, err := p.Parse(bytes.NewReader(append(append([]byte{byte(len(name))}, name...), 7)))
		switch name {
		case "mine":
			sym.Assert(err == nil && isStream(c, 5) && made == 1 && marked(c, 7), "a parser does not use its own factory")
		case "seek":
			sym.Assert(err == nil && isStream(c, 0) && made == 10 && marked(c, 7), "a parser does not use its own factory")
		default:
			sym.Assert(err != nil && c == nil && made == 0, "a parser accepts a name it was not given")
		}
	}
	sym.Cover("own")
	// the default parsers are as before
	c, err := command(0, "connect", []byte{3})
	sym.Assert(err == nil && isCommand(0, 0, c) && marked(c, 3), "a new parser changes the default one")
	c, err = command(1, "seek", []byte{3})
	sym.Assert(err == nil && isCommand(1, 6, c), "a new parser changes the default one")
}

const tasks = 8

// task does the work of one connection with objects of its own, on the mark m and the
// body b. It returns a function which checks what came out and may run much later.
func task(kind, pick int, m byte, b []byte) func() {
	switch kind {
	case 0, 1: // commands by name
		names := namesOf(kind)
		k := pick % len(names)
		c, err := command(kind, names[k], []byte{m})
		return func() {
			sym.Assert(err == nil && isCommand(kind, k, c) && marked(c, m), "a command holds parts of another connection's")
		}
	case 2: // media
		typ := []byte{8, 9, 0x12}[pick%3]
		body := append([]byte(nil), b...)
		if typ == 0x12 {
			body[0] = m
		}
		h := msgChunk(4, uint32(m), typ, body)
		d, err := data.DefaultParser.Parse(h)
		var c *chunk.Chunk
		var err2 error
		if err == nil && typ != 0x12 {
			c, err2 = d.Marshal()
		}
		return func() {
			sym.Assert(err == nil && err2 == nil && isData(d, typ), "a media message is not parsed")
			if typ == 0x12 {
				sym.Assert(marked(d, m), "a data frame holds parts of another connection's")
				return
			}
			x := d.(media)
			sym.Assert(x.Control() == b[0] && eqBytes(x.Payload(), b[1:]), "a media message holds parts of another connection's")
			sym.Assert(eqBytes(c.Data, b) && c.Header.MessageHeader.StreamId == uint32(m), "a media message holds parts of another connection's")
		}
	case 3: // responses
		c, err := conn.NewChunker(3).Chunk(&conn.CreateStreamResponse{TransactionId: 1})
		return func() {
			sym.Assert(err == nil, "a response does not become a chunk")
			checkOutgoing(c, [3]uint32{3, 0, 0x14}, []byte{'_', 1})
		}
	case 4: // statuses
		st := stream.NewStatus()
		if pick%2 == 0 {
			st.Arguments.Add("level", amf0.NewString("status"))
		}
		c, err := st.AsChunk()
		return func() {
			sym.Assert(err == nil, "a status does not become a chunk")
			checkOutgoing(c, [3]uint32{5, 1, 0x14}, append(append([]byte(nil), stream.OnStatusCommandHeader...), byte(1-pick%2), 2))
		}
	case 5: // data frames
		f := &data.DataFrame{Type: string([]byte{m}), Arguments: amf0.NewArray()}
		c, err := f.Marshal()
		return func() {
			sym.Assert(err == nil, "a data frame does not become a chunk")
			checkOutgoing(c, [3]uint32{4, 1, 0x12}, []byte{m, 3})
		}
	case 6: // a dispatcher
		in := source{make(chan *chunk.Chunk)}
		w := new(sink)
		mg := cmd.New(in, w)
		done := make(chan struct{})
		go func() { mg.Dispatch(true); close(done) }()
		in.ch <- msgChunk(4, 1, 8, b)
		d := <-mg.DataStream().Out()
		mg.NetStream().Status() <- stream.NewStatus()
		sym.Quiesce()
		mg.Close()
		<-done
		return func() {
			x, ok := d.(media)
			sym.Assert(ok && x.Control() == b[0] && eqBytes(x.Payload(), b[1:]), "a message reaches another dispatcher")
			sym.Assert(len(w.got) == 1, "a status is written elsewhere")
			checkOutgoing(w.got[0], [3]uint32{5, 1, 0x14}, append(append([]byte(nil), stream.OnStatusCommandHeader...), 0, 2))
		}
	default: // a client
		p := newPeer()
		p.more = make(chan []byte)
		p.tail = wire(2, 3, 0, []byte{0, 0, 0, m})
		cl := client.New(p)
		go cl.Controls().Recv()
		err := cl.Handshake()
		var c control.Control
		if err == nil {
			c = <-cl.Controls().In()
			cl.Controls().Out() <- &control.WindowAckSize{WindowAckSize: uint32(m)}
			sym.Quiesce()
		}
		return func() {
			sym.Assert(err == nil, "a handshake fails because of another client")
			a, ok := c.(*control.Acknowledgement)
			sym.Assert(ok && a.SequenceNumber == uint32(m), "a message reaches another client")
			sym.Assert(len(p.out) == whole+16 && p.out[whole+15] == m, "a message is written to another client")
		}
	}
}

// The work of one connection leaves what another has got alone.
//
//verif:property C33
//verif:bounds any two of 8 kinds of work (commands by name, media, responses, statuses, data frames, dispatcher, client), one after the other with objects of their own, media of 3 arbitrary bytes; the results looked at when both are done, the first ones also before the second starts
//verif:steps 40000000
//verif:shards 4 4
func ApartSequential() {
	markingAMF()
	a := sym.Choose("a", tasks)
	b := sym.Choose("b", tasks)
	pick := sym.Choose("pick", 8)
	if a > 2 && a != 4 {
		sym.Assume(pick == 0)
	}
	da, db := sym.Bytes("da", 3), sym.Bytes("db", 3)
	ca := task(a, pick, 1, append([]byte(nil), da...))
	ca()
	cb := task(b, pick, 2, append([]byte(nil), db...))
	cb()
	ca()
	cc := task(a, pick, 3, append([]byte(nil), db...))
	cc()
	ca()
	sym.Cover("done")
}

// Connections work at the same time.
//
//verif:property C33
//verif:bounds two goroutines doing one kind of work each, with objects of their own: commands by name, media, responses, statuses and data frames in any combination; every schedule
//verif:mode full race noobs
//verif:shards 2 2
func ApartConcurrent() {
	markingAMF()
	a := sym.Choose("a", 6)
	b := sym.Choose("b", 6)
	sym.Assume(a <= b)
	pick := sym.Choose("pick", 8)
	if a > 2 && a != 4 {
		sym.Assume(pick == 0)
	}
	da, db := sym.Bytes("da", 3), sym.Bytes("db", 3)
	done := make(chan func())
	go func() { done <- task(b, pick, 2, db) }()
	ca := task(a, pick, 1, da)
	cb := <-done
	ca()
	cb()
	sym.Cover("done")
}
