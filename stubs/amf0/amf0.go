// Package amf0 stands in for github.com/WatchBeam/amf0, which is not available here.
//
// It has the API that todostreaming/rtmp uses and no behaviour of its own: what the
// codec answers is set by the harness, which leaves it arbitrary.
package amf0

import (
	"errors"
	"io"
)

type AmfType interface {
	Marker() byte
}

// Paired is a list of keyed values.
type Paired struct {
	Keys   []string
	Values []AmfType
}

func NewPaired() *Paired { return &Paired{} }

func (p *Paired) Add(key string, val AmfType) *Paired {
	p.Keys = append(p.Keys, key)
	p.Values = append(p.Values, val)
	return p
}

type Object struct{ *Paired }

func NewObject() *Object { return &Object{NewPaired()} }

func (o *Object) Marker() byte { return 0x03 }

type Array struct{ *Paired }

func NewArray() *Array { return &Array{NewPaired()} }

func (a *Array) Marker() byte { return 0x08 }

type String string

func NewString(s string) *String { r := String(s); return &r }

func (s *String) Marker() byte { return 0x02 }

type Null struct{}

func (n *Null) Marker() byte { return 0x05 }

// ErrStub is the answer of a codec function no harness has set.
var ErrStub = errors.New("amf0 stub")

// DecodeFn answers Decode.
var DecodeFn = func(r io.Reader) (AmfType, error) { return nil, ErrStub }

func Decode(r io.Reader) (AmfType, error) { return DecodeFn(r) }

type Number float64

func NewNumber(n float64) *Number { r := Number(n); return &r }

func (n *Number) Marker() byte { return 0x00 }

type Bool bool

func NewBool(b bool) *Bool { r := Bool(b); return &r }

func (b *Bool) Marker() byte { return 0x01 }

type LongString string

func NewLongString(s string) *LongString { r := LongString(s); return &r }

func (s *LongString) Marker() byte { return 0x0c }

type Undefined struct{}

func (u *Undefined) Marker() byte { return 0x06 }

// Len, Get and Key read a list of keyed values.
func (p *Paired) Len() int { return len(p.Keys) }

func (p *Paired) Get(key string) (AmfType, error) {
	for i, k := range p.Keys {
		if k == key {
			return p.Values[i], nil
		}
	}
	return nil, ErrStub
}

// EncodeFn answers Encode.
var EncodeFn = func(t AmfType, w io.Writer) (int, error) { return 0, ErrStub }

func Encode(t AmfType, w io.Writer) (int, error) { return EncodeFn(t, w) }
