package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of the interpreted program. Scalars are Terms; aggregates are trees of
// values with copy-on-write ownership; pointers, lengths and dynamic types are concrete.

type Value any

type Tok struct{ _ byte }

// Agg is a struct, array or tuple value.
type Agg struct {
	tok   *Tok
	elems []Value
}

type Float struct {
	v   float64
	f32 bool
}

// Str is a string; bytes is nil when the content is concrete.
type Str struct {
	opaque bool // content is a placeholder
	s      string
	bytes  []*Term
}

func (s *Str) len() int {
	if s.bytes != nil {
		return len(s.bytes)
	}
	return len(s.s)
}
func (s *Str) at(i int) *Term {
	if s.bytes != nil {
		return s.bytes[i]
	}
	return byteConst[s.s[i]]
}
func mkStr(bs []*Term) *Str {
	b := make([]byte, len(bs))
	for i, t := range bs {
		if !t.isConst() {
			return &Str{bytes: append([]*Term(nil), bs...)}
		}
		b[i] = byte(t.val)
	}
	return &Str{s: string(b)}
}
func concStr(s string) *Str { return &Str{s: s} }

var byteConst [256]*Term

func init() {
	for i := range byteConst {
		byteConst[i] = mkConst(8, uint64(i))
	}
}

// Ptr points into a heap object. obj 0 is nil. If sym is non-nil the pointer is to element sym of the array at path.
type Ptr struct {
	obj  int
	path []int
	sym  *Term
}

// Slice views elements [off, off+len) of the array at (obj, path).
type Slice struct {
	obj           int
	path          []int
	off, len, cap int
}

type MapRef int  // heap id, 0 nil
type ChanRef int // heap id, 0 nil

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
}

// Native is a callable implemented by the engine (bound intrinsic).
type Native struct {
	name string
	free []Value
}

// RType is the value of a reflect.Type; RValue of a reflect.Value.
type RType struct{ t types.Type }
type RValue struct {
	t     types.Type
	v     Value // current value if !addr
	ptr   Ptr
	addr  bool
	valid bool
}

type MapEntry struct {
	k, v Value
}
type MapObj struct {
	entries []MapEntry
	order   [6]uint8 // by number of entries: 1 + the order in which code of the repository ranges over them
}
type ChanObj struct {
	cap    int
	buf    []Value
	closed bool
	// race detection: clocks
	vcs     []VC
	closeVC VC
	recvVC  VC // merged clock of receivers (for buffered/unbuffered back edges)
}

type MapIter struct {
	entries []MapEntry
	m       MapRef
	pos     int
	str     *Str
	isStr   bool
}

// Obj is a heap cell.
type Obj struct {
	tok  *Tok
	val  Value
	m    *MapObj
	c    *ChanObj
	name string
}

func (p Ptr) isNil() bool { return p.obj == 0 }

func pathEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pathAdd(p []int, i int) []int {
	n := make([]int, len(p)+1)
	copy(n, p)
	n[len(p)] = i
	return n
}

func under(t types.Type) types.Type { return t.Underlying() }

func intWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (f32, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return false, false
	}
	switch b.Kind() {
	case types.Float32:
		return true, true
	case types.Float64, types.UntypedFloat:
		return false, true
	}
	return false, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isUnsafePtr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (e *Engine) zero(st *State, t types.Type) Value {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "reflect" || n.Obj().Pkg().Path() == "internal/reflectlite") {
		return RValue{}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if w, _, ok := intWidth(t); ok {
			if w == 0 {
				return vFalse
			}
			return mkConst(w, 0)
		}
		if f32, ok := isFloat(t); ok {
			return Float{0, f32}
		}
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		if u.Info()&types.IsComplex != 0 {
			return complex(0, 0)
		}
	case *types.Struct:
		a := &Agg{tok: tokOf(st), elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			a.elems[i] = e.zero(st, u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{tok: tokOf(st), elems: make([]Value, n)}
		if n > 0 {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Array:
				for i := range a.elems {
					a.elems[i] = e.zero(st, u.Elem())
				}
			default:
				z := e.zero(st, u.Elem())
				for i := range a.elems {
					a.elems[i] = z
				}
			}
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef(0)
	case *types.Chan:
		return ChanRef(0)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		a := &Agg{elems: make([]Value, u.Len())}
		for i := range a.elems {
			a.elems[i] = e.zero(st, u.At(i).Type())
		}
		return a
	}
	unsup("zero value of %v", t)
	return nil
}

func tokOf(st *State) *Tok {
	if st == nil {
		return nil
	}
	return st.tok
}

var emptyStr = &Str{s: ""}

type unsupErr struct{ msg string }

func unsup(f string, a ...any) { panic(unsupErr{fmt.Sprintf(f, a...)}) }

// ---- heap access ----

func (st *State) obj(id int) *Obj {
	if o := st.heap[id]; o != nil {
		return o
	}
	if o := st.e.base[id]; o != nil {
		return o
	}
	panic(fmt.Sprintf("engine: no object %d", id))
}

func (st *State) own(id int) *Obj {
	o := st.obj(id)
	if o.tok == st.tok {
		return o
	}
	n := &Obj{tok: st.tok, val: o.val, name: o.name}
	if o.m != nil {
		n.m = &MapObj{entries: append([]MapEntry(nil), o.m.entries...), order: o.m.order}
	}
	if o.c != nil {
		c := *o.c
		c.buf = append([]Value(nil), o.c.buf...)
		c.vcs = append([]VC(nil), o.c.vcs...)
		n.c = &c
	}
	st.heap[id] = n
	return n
}

func (st *State) alloc(v Value, name string) int {
	st.nextObj++
	st.heap[st.nextObj] = &Obj{tok: st.tok, val: v, name: name}
	return st.nextObj
}

func walk(v Value, path []int) Value {
	for _, i := range path {
		v = v.(*Agg).elems[i]
	}
	return v
}

func freeze(v Value) Value {
	if a, ok := v.(*Agg); ok {
		a.tok = nil
	}
	return v
}

func (st *State) storePath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return freeze(nv)
	}
	a := v.(*Agg)
	if a.tok != st.tok {
		n := &Agg{tok: st.tok, elems: make([]Value, len(a.elems))}
		copy(n.elems, a.elems)
		for _, c := range n.elems {
			ca, ok := c.(*Agg)
			if !ok {
				break
			}
			ca.tok = nil
		}
		// struct fields may mix scalars and aggregates
		for _, c := range n.elems {
			if ca, ok := c.(*Agg); ok {
				ca.tok = nil
			} else if len(n.elems) > 64 {
				break
			}
		}
		a = n
	}
	a.elems[path[0]] = st.storePath(a.elems[path[0]], path[1:], nv)
	return a
}

func (st *State) load(p Ptr) Value {
	o := st.obj(p.obj)
	v := walk(o.val, p.path)
	if p.sym != nil {
		a := v.(*Agg)
		idx := p.sym
		n := len(a.elems)
		r, ok := a.elems[n-1].(*Term)
		if !ok {
			unsup("symbolic index load of %T", a.elems[n-1])
		}
		for i := n - 2; i >= 0; i-- {
			r = mkIte(mkEq(idx, mkConst(idx.w, uint64(i))), a.elems[i].(*Term), r)
		}
		return r
	}
	return freeze(v)
}

func (st *State) store(p Ptr, v Value) {
	o := st.own(p.obj)
	if p.sym != nil {
		a := walk(o.val, p.path).(*Agg)
		for i := range a.elems {
			c := mkEq(p.sym, mkConst(p.sym.w, uint64(i)))
			nv := mkIte(c, v.(*Term), a.elems[i].(*Term))
			o.val = st.storePath(o.val, pathAdd(p.path, i), nv)
		}
		return
	}
	o.val = st.storePath(o.val, p.path, v)
}

// arr returns the backing array elements (read only) of a slice.
func (st *State) sliceElems(s Slice) []Value {
	if s.obj == 0 || s.len == 0 {
		return nil
	}
	a := walk(st.obj(s.obj).val, s.path).(*Agg)
	return a.elems[s.off : s.off+s.len]
}

// ownArr returns the backing array for in-place modification.
func (st *State) ownArr(s Slice) *Agg {
	o := st.own(s.obj)
	var rec func(v Value, path []int) Value
	var leaf *Agg
	rec = func(v Value, path []int) Value {
		a := v.(*Agg)
		if a.tok != st.tok {
			n := &Agg{tok: st.tok, elems: make([]Value, len(a.elems))}
			copy(n.elems, a.elems)
			for i, c := range n.elems {
				if ca, ok := c.(*Agg); ok {
					ca.tok = nil
				} else if i == 0 && len(n.elems) > 64 {
					break
				}
			}
			a = n
		}
		if len(path) == 0 {
			leaf = a
			return a
		}
		a.elems[path[0]] = rec(a.elems[path[0]], path[1:])
		return a
	}
	o.val = rec(o.val, s.path)
	return leaf
}

func (st *State) bytesOf(s Slice) []*Term {
	es := st.sliceElems(s)
	out := make([]*Term, len(es))
	for i, v := range es {
		out[i] = v.(*Term)
	}
	return out
}

func (e *Engine) mkByteSlice(st *State, bs []*Term) Slice {
	a := &Agg{tok: st.tok, elems: make([]Value, len(bs))}
	for i, b := range bs {
		a.elems[i] = b
	}
	id := st.alloc(a, "bytes")
	return Slice{obj: id, len: len(bs), cap: len(bs)}
}

// ---- equality ----

func (e *Engine) eq(st *State, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return mkEq(x, b.(*Term))
	case Float:
		return mkBool(x.v == b.(Float).v)
	case complex128:
		return mkBool(x == b.(complex128))
	case *Str:
		return eqStr(x, b.(*Str))
	case Ptr:
		y := b.(Ptr)
		if x.sym != nil || y.sym != nil {
			unsup("comparison of symbolically indexed pointers")
		}
		return mkBool(x.obj == y.obj && pathEq(x.path, y.path))
	case Slice:
		y := b.(Slice)
		return mkBool(x.obj == 0 && y.obj == 0) // only nil comparison is legal
	case MapRef:
		return mkBool(x == b.(MapRef))
	case ChanRef:
		return mkBool(x == b.(ChanRef))
	case *Closure:
		y, _ := b.(*Closure)
		return mkBool(x == nil && y == nil)
	case *Native:
		return mkBool(x == b)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("eq iface/%T", b)
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return vFalse
		}
		if !types.Comparable(x.t) {
			panic(goPanic{val: e.rtErr("runtime error: comparing uncomparable type " + x.t.String())})
		}
		return e.eq(st, x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		cs := make([]*Term, 0, len(x.elems))
		for i := range x.elems {
			c := e.eq(st, x.elems[i], y.elems[i])
			if c.isFalse() {
				return vFalse
			}
			cs = append(cs, c)
		}
		return mkAnd(cs...)
	case RType:
		y, ok := b.(RType)
		return mkBool(ok && types.Identical(x.t, y.t))
	case nil:
		return mkBool(b == nil)
	}
	unsup("equality of %T", a)
	return nil
}

func eqStr(a, b *Str) *Term {
	if a.opaque || b.opaque {
		unsup("comparison of a formatted string with symbolic parts")
	}
	if a.len() != b.len() {
		return vFalse
	}
	if a.bytes == nil && b.bytes == nil {
		return mkBool(a.s == b.s)
	}
	cs := make([]*Term, 0, a.len())
	for i := 0; i < a.len(); i++ {
		c := mkEq(a.at(i), b.at(i))
		if c.isFalse() {
			return vFalse
		}
		cs = append(cs, c)
	}
	return mkAnd(cs...)
}

// ltStr is a < b lexicographically.
func ltStr(a, b *Str) *Term {
	if a.bytes == nil && b.bytes == nil {
		return mkBool(a.s < b.s)
	}
	n := min(a.len(), b.len())
	r := mkBool(a.len() < b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = mkOr(mkCmp(OUlt, x, y), mkAnd(mkEq(x, y), r))
	}
	return r
}

func show(v Value) string {
	switch x := v.(type) {
	case *Term:
		return x.String()
	case *Str:
		if x.bytes == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("sym-string[%d]", len(x.bytes))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", x.t, show(x.v))
	case *Agg:
		var p []string
		for i, el := range x.elems {
			if i > 8 {
				p = append(p, "...")
				break
			}
			p = append(p, show(el))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("%v", v)
}
