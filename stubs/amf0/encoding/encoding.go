// Package encoding stands in for github.com/WatchBeam/amf0/encoding.
package encoding

import (
	"io"

	"github.com/WatchBeam/amf0"
)

// MarshalFn and UnmarshalFn answer Marshal and Unmarshal. Until a harness sets it,
// Marshal returns three bytes in a buffer with room for more, as bytes.Buffer does.
var MarshalFn = func(v interface{}) ([]byte, error) {
	b := make([]byte, 0, 64)
	return append(b, 0xa1, 0xa2, 0xa3), nil
}
var UnmarshalFn = func(r io.Reader, v interface{}) error { return amf0.ErrStub }

func Marshal(v interface{}) ([]byte, error)      { return MarshalFn(v) }
func Unmarshal(r io.Reader, v interface{}) error { return UnmarshalFn(r, v) }
