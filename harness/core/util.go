// Package core holds the harnesses for chunk, control, handshake and spec.
package core

import (
	"errors"
	"io"
	"syscall"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"
	"github.com/WatchBeam/rtmp/handshake"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

var errSource = errors.New("source failed")
var errSink = errors.New("sink failed")

// trouble is an error of the kind the net package makes.
type trouble struct{ timeout bool }

func (t *trouble) Error() string   { return "trouble" }
func (t *trouble) Timeout() bool   { return t.timeout }
func (t *trouble) Temporary() bool { return true }

// wrapped is an error with a cause.
type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped" }
func (w *wrapped) Unwrap() error { return w.err }

// troubles are the errors the environment fails with.
var troubles = []error{
	errSink, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrShortWrite, &trouble{true}, &trouble{false}, io.ErrNoProgress,
	&wrapped{io.EOF}, syscall.EPIPE, io.ErrShortBuffer, chunk.ErrInvalidChunkSize, &wrapped{syscall.ECONNRESET},
	chunk.ErrUnknownFormatId, handshake.MismatchedChallengeErr, syscall.EAGAIN, &wrapped{io.ErrUnexpectedEOF},
}

func troubleOf(i int) error { return troubles[i%len(troubles)] }

// failureOf is one of them that is not io.EOF, the end of a source.
func failureOf(i int) error {
	if e := troubleOf(i); e != io.EOF {
		return e
	}
	return errSource
}

// buf is a growing in-memory transport: it records every write.
type buf struct {
	b     []byte
	calls int
}

func (w *buf) Write(p []byte) (int, error) {
	w.calls++
	w.b = append(w.b, p...)
	return len(p), nil
}

// src hands out b in full and then fails with end (io.EOF if nil); pos counts the bytes taken.
type src struct {
	b   []byte
	pos int
	end error
}

func (r *src) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.b) {
		if r.end != nil {
			return 0, r.end
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:])
	r.pos += n
	return n, nil
}

// seg is a source that may return fewer bytes than asked for, none at all, or the last
// ones together with its end. budget bounds the number of such reads.
type seg struct {
	b      []byte
	pos    int
	end    error
	budget int
}

func (r *seg) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := r.end
	if end == nil {
		end = io.EOF
	}
	rem := len(r.b) - r.pos
	if rem == 0 {
		return 0, end
	}
	full := min(len(p), rem)
	n := full
	if r.budget > 0 {
		n = full - sym.Choose("short", full+1)
		if n != full {
			r.budget--
		}
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.b) && n > 0 && r.budget > 0 && sym.Bool("endwith") {
		r.budget--
		return n, end
	}
	return n, nil
}

// segB is seg with a ReadByte method.
type segB struct{ seg }

func (r *segB) ReadByte() (byte, error) {
	if r.pos >= len(r.b) {
		if r.end != nil {
			return 0, r.end
		}
		return 0, io.EOF
	}
	r.pos++
	return r.b[r.pos-1], nil
}

func be(b []byte) uint64 {
	var x uint64
	for _, c := range b {
		x = x<<8 | uint64(c)
	}
	return x
}

func le(b []byte) uint64 {
	var x uint64
	for i := len(b) - 1; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	return x
}

func beBytes(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x >> uint(8*(n-1-i)))
	}
	return b
}

func leBytes(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x >> uint(8*i))
	}
	return b
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// wireBasic is the reference encoding of a basic header.
func wireBasic(f byte, id uint32) []byte {
	switch {
	case id < 64:
		return []byte{f<<6 | byte(id)}
	case id < 320:
		return []byte{f << 6, byte(id - 64)}
	default:
		return []byte{f<<6 | 63, byte((id - 64) >> 8), byte(id - 64)}
	}
}

// wireMessage is the reference encoding of a message header of format f.
func wireMessage(f byte, ts, length uint32, typ byte, sid uint32) []byte {
	var b []byte
	if f <= 2 {
		b = append(b, beBytes(uint64(ts), 3)...)
	}
	if f <= 1 {
		b = append(b, beBytes(uint64(length), 3)...)
		b = append(b, typ)
	}
	if f == 0 {
		b = append(b, leBytes(uint64(sid), 4)...)
	}
	return b
}

var messageLen = [4]int{11, 7, 3, 0}

// controls lists one decoder per control message.
func newControl(i int) control.Control {
	switch i {
	case 0:
		return new(control.SetChunkSize)
	case 1:
		return new(control.AbortMessage)
	case 2:
		return new(control.Acknowledgement)
	case 3:
		return new(control.Event)
	case 4:
		return new(control.WindowAckSize)
	default:
		return new(control.SetPeerBandwidth)
	}
}

var controlLen = [6]int{4, 4, 4, 2, 4, 5}

func sameHeader(a, b *chunk.Header) bool {
	return sym.And(a.BasicHeader.FormatId == b.BasicHeader.FormatId, a.BasicHeader.StreamId == b.BasicHeader.StreamId,
		sameMessageHeader(&a.MessageHeader, &b.MessageHeader), a.ExtendedTimestamp.Delta == b.ExtendedTimestamp.Delta)
}

func sameMessageHeader(a, b *chunk.MessageHeader) bool {
	return sym.And(a.FormatId == b.FormatId, a.Timestamp == b.Timestamp, a.TimestampDelta == b.TimestampDelta,
		a.Length == b.Length, a.TypeId == b.TypeId, a.StreamId == b.StreamId)
}

func eqBytes(a, b []byte) bool { return sym.EqBytes(a, b) }
