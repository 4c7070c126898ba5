// Package top holds the harnesses for the command packages and the client.
package top

import (
	"errors"
	"io"
	"net"
	"syscall"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

var errAmf = errors.New("amf0 failed")
var errSink = errors.New("sink failed")

// trouble is an error of the kind the net package makes.
type trouble struct{ timeout bool }

func (t *trouble) Error() string   { return "trouble" }
func (t *trouble) Timeout() bool   { return t.timeout }
func (t *trouble) Temporary() bool { return true }

// wrapped is an error with a cause.
type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped" }
func (w *wrapped) Unwrap() error { return w.err }

// troubles are the errors the environment fails with.
var troubles = []error{
	errSink, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrShortWrite, &trouble{true}, &trouble{false}, io.ErrNoProgress,
	&wrapped{io.EOF}, syscall.EPIPE, io.ErrShortBuffer, chunk.ErrInvalidChunkSize, &wrapped{syscall.ECONNRESET},
	data.ErrControlMissing, errAmf, syscall.EAGAIN, net.ErrClosed, &wrapped{io.ErrUnexpectedEOF},
}

func troubleOf(i int) error { return troubles[i%len(troubles)] }

// failureOf is one of them that is not io.EOF, the end of a source.
func failureOf(i int) error {
	if e := troubleOf(i); e != io.EOF {
		return e
	}
	return errSink
}

// source is a chunk stream fed by the harness.
type source struct{ ch chan *chunk.Chunk }

func (s source) In() <-chan *chunk.Chunk { return s.ch }

// sink is a chunk writer that records what it is given; fail makes the next write fail
// (with err, if that is set).
type sink struct {
	got  []*chunk.Chunk
	fail bool
	err  error
}

func (w *sink) Write(c *chunk.Chunk) error {
	if w.fail {
		w.fail = false
		if w.err != nil {
			return w.err
		}
		return errSink
	}
	w.got = append(w.got, c)
	return nil
}
func (w *sink) WriteSize() int     { return 128 }
func (w *sink) SetWriteSize(n int) {}

func msgChunk(csid, msid uint32, typ byte, data []byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:   chunk.BasicHeader{StreamId: csid},
		MessageHeader: chunk.MessageHeader{Length: uint32(len(data)), TypeId: typ, StreamId: msid},
	}, data)
}

// names of the commands, in the order of their codes in the abstract bodies.
var connNames = []string{"connect", "createStream", "releaseStream", "FCPublish", "getStreamLength", "nonsense"}
var streamNames = []string{"play", "play2", "deleteStream", "receiveAudio", "receiveVideo", "publish", "seek", "pause", "nonsense"}

// first takes one byte from r, as the decoder of an abstract body.
func first(r io.Reader) (byte, error) {
	var b [1]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return 0, err
	}
	return b[0], nil
}

// abstractAMF makes the stand-in codec read abstract bodies: one byte per value. A
// command name is its index in names (0x80 up: a value that is no string, 0xff: an
// error); the body is one byte, 0xff being an error, and is recorded in seen.
func abstractAMF(seen *[]byte) { abstractAMFError(seen, errAmf) }

// abstractAMFError is abstractAMF failing with errBody.
func abstractAMFError(seen *[]byte, errBody error) {
	amf0.DecodeFn = func(r io.Reader) (amf0.AmfType, error) {
		b, err := first(r)
		switch {
		case err != nil:
			return nil, err
		case b == 0xff:
			return nil, errBody
		case b >= 0x80:
			return &amf0.Null{}, nil
		case int(b) < len(connNames):
			return amf0.NewString(connNames[b]), nil
		}
		return amf0.NewString("?"), nil
	}
	encoding.UnmarshalFn = func(r io.Reader, v interface{}) error {
		b, err := first(r)
		if err != nil {
			return err
		}
		if b == 0xff {
			return errBody
		}
		if h, ok := v.(*stream.CommandHeader); ok {
			h.Name = "?"
			if int(b) < len(streamNames) {
				h.Name = streamNames[b]
			}
			return nil
		}
		*seen = append(*seen, b)
		return nil
	}
}

// abstractAMFNoRecord is abstractAMF without the record, for concurrent use.
func abstractAMFNoRecord() {
	var seen []byte
	abstractAMF(&seen)
	f := encoding.UnmarshalFn
	encoding.UnmarshalFn = func(r io.Reader, v interface{}) error {
		if _, ok := v.(*stream.CommandHeader); ok {
			return f(r, v)
		}
		b, err := first(r)
		if err == nil && b == 0xff {
			err = errAmf
		}
		return err
	}
}

func isConn(r conn.Receivable, k int) bool {
	switch r.(type) {
	case *conn.ConnectCommand:
		return k == 0
	case *conn.CreateStreamCommand:
		return k == 1
	case *conn.ReleaseCommand:
		return k == 2
	case *conn.FCPublishCommand:
		return k == 3
	case *conn.GetStreamLength:
		return k == 4
	}
	return false
}

func isStream(c stream.Command, k int) bool {
	switch c.(type) {
	case *stream.CommandPlay:
		return k == 0
	case *stream.CommandPlay2:
		return k == 1
	case *stream.CommandDeleteStream:
		return k == 2
	case *stream.CommandReceiveAudio:
		return k == 3
	case *stream.CommandReceiveVideo:
		return k == 4
	case *stream.CommandPublish:
		return k == 5
	case *stream.CommandSeek:
		return k == 6
	case *stream.CommandPause:
		return k == 7
	}
	return false
}

func isData(d data.Data, typ byte) bool {
	switch d.(type) {
	case *data.Audio:
		return typ == 8
	case *data.Video:
		return typ == 9
	case *data.DataFrame:
		return typ == 0x12
	}
	return false
}

func eqBytes(a, b []byte) bool { return sym.EqBytes(a, b) }

func sameHeader(a, b *chunk.Header) bool {
	x, y := &a.MessageHeader, &b.MessageHeader
	return sym.And(a.BasicHeader.FormatId == b.BasicHeader.FormatId, a.BasicHeader.StreamId == b.BasicHeader.StreamId,
		x.FormatId == y.FormatId, x.Timestamp == y.Timestamp, x.TimestampDelta == y.TimestampDelta,
		x.Length == y.Length, x.TypeId == y.TypeId, x.StreamId == y.StreamId, a.ExtendedTimestamp.Delta == b.ExtendedTimestamp.Delta)
}

// anyHeader is a header with arbitrary fields.
func anyHeader(length uint32) *chunk.Header {
	f := byte(sym.Choose("fmt", 4))
	return &chunk.Header{
		BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: sym.Uint32("csid")},
		MessageHeader: chunk.MessageHeader{
			FormatId: f, Timestamp: sym.Uint32("ts"), TimestampDelta: sym.Bool("delta"), Length: length, TypeId: sym.Byte("typ"), StreamId: sym.Uint32("msid"),
		},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: sym.Uint32("ext")},
	}
}
