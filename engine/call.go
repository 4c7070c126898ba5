package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolution: returns the function value and the full argument list.
func (st *State) prepCall(f *Frame, c *ssa.CallCommon) Deferred {
	d := Deferred{call: c}
	if c.IsInvoke() {
		recv := st.get(f, c.Value).(Iface)
		if recv.t == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		d.args = make([]Value, 0, len(c.Args)+1)
		if rt, ok := recv.v.(RType); ok {
			d.fn = &Native{name: "rtype." + c.Method.Name()}
			d.args = append(d.args, rt)
		} else {
			fn := st.e.lookupMethod(recv.t, c.Method)
			if fn == nil {
				unsup("no method %s on %v", c.Method.Name(), recv.t)
			}
			d.fn = &Closure{fn: fn}
			d.args = append(d.args, recv.v)
		}
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			d.bi = v
		default:
			d.fn = st.get(f, c.Value)
		}
	}
	for _, a := range c.Args {
		d.args = append(d.args, st.get(f, a))
	}
	return d
}

func (st *State) call(g *G, f *Frame, x *ssa.Call) {
	d := st.prepCall(f, &x.Call)
	if d.bi != nil {
		st.builtin(g, d.bi, d.args, x, d.call, false)
		return
	}
	st.callValue(g, d.fn, d.args, x, false)
}

// CallCtx is passed to intrinsics.
type CallCtx struct {
	st       *State
	g        *G
	args     []Value
	name     string
	fn       *ssa.Function
	deferred bool
	instr    *ssa.Call
}

type intrinsic func(c *CallCtx) (Value, bool) // false: the intrinsic arranged continuation itself (pend or frame)

func (st *State) callValue(g *G, fv Value, args []Value, x *ssa.Call, deferred bool) {
	switch fn := fv.(type) {
	case *Closure:
		if fn == nil {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		name := fn.fn.String()
		if fn.fn.Origin() != nil {
			name = fn.fn.Origin().String()
		}
		if h := lookupIntrinsic(fn.fn, name); h != nil {
			if deferred {
				st.inDefer = true
				defer func() { st.inDefer = false }()
			}
			c := &CallCtx{st: st, g: g, args: args, name: name, fn: fn.fn, deferred: deferred, instr: x}
			if len(fn.free) > 0 {
				c.args = append(append([]Value(nil), args...), fn.free...)
			}
			v, done := h(c)
			if done {
				st.finishCall(g, x, v, deferred)
			}
			return
		}
		if st.e.inInit && fn.fn.Name() == "init" && fn.fn.Signature.Recv() == nil && fn.fn.Pkg != nil && fn.fn.Synthetic != "" && !runsInit(fn.fn.Pkg.Pkg.Path()) {
			st.finishCall(g, x, nil, deferred)
			return
		}
		if st.e.inInit && strings.HasPrefix(fn.fn.Name(), "init#") && fn.fn.Pkg != nil && !strings.HasPrefix(fn.fn.Pkg.Pkg.Path(), "github.com/WatchBeam/") && fn.fn.Pkg.Pkg.Path() != "context" {
			st.finishCall(g, x, nil, deferred)
			return
		}
		if len(fn.fn.Blocks) == 0 {
			unsup("call of %s (no Go body, not modelled)", name)
		}
		if blocked(fn.fn) {
			unsup("call of %s (not modelled)", name)
		}
		fr := st.pushFrame(g, fn.fn, args, fn.free, false)
		fr.deferred = deferred
	case *Native:
		h := natives[fn.name]
		if h == nil {
			unsup("native %s", fn.name)
		}
		v, done := h(&CallCtx{st: st, g: g, args: append(append([]Value(nil), fn.free...), args...), name: fn.name, deferred: deferred, instr: x})
		if done {
			st.finishCall(g, x, v, deferred)
		}
	default:
		unsup("call of %T", fv)
	}
}

// packages whose code is never executed symbolically.
var blockedPkgs = map[string]bool{
	"os": true, "syscall": true, "net": true, "runtime": true, "reflect": true, "fmt": true, "log": true, "internal/poll": true,
	"internal/reflectlite": true, "os/exec": true, "testing": true, "crypto/rand": true, "internal/testlog": true, "internal/godebug": true,
}

// functions of those packages that are.
var unblocked = map[string]bool{
	"(runtime.errorString).Error": true, "(*fmt.wrapError).Unwrap": true, "(*fmt.wrapError).Error": true,
	"net.Listen": true, "(*net.ListenConfig).Listen": true,
}

func blocked(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		return false
	}
	return blockedPkgs[p.Pkg.Path()] && !unblocked[fn.String()]
}

func (st *State) finishCall(g *G, x *ssa.Call, v Value, deferred bool) {
	if deferred {
		return
	}
	if x != nil {
		if v != nil {
			st.set(g, x, v)
		}
		st.advance(g)
	}
}

// spawn starts a goroutine.
func (st *State) spawn(g *G, d Deferred) {
	ng := &G{id: len(st.gs)}
	if d.bi != nil {
		unsup("go builtin")
	}
	cl, ok := d.fn.(*Closure)
	if !ok || cl == nil {
		unsup("go of %T", d.fn)
	}
	name := cl.fn.String()
	if lookupIntrinsic(cl.fn, name) != nil || len(cl.fn.Blocks) == 0 {
		unsup("go %s", name)
	}
	st.gs = append(st.gs[:len(st.gs):len(st.gs)], ng)
	if len(st.gs) > st.e.maxGs {
		st.e.maxGs = len(st.gs)
	}
	limit := 4000
	if st.e.cfg.Full {
		limit = 64
	}
	if len(st.gs) > limit {
		st.e.limits["goroutines"]++
		panic(pathEnd{"goroutines"})
	}
	if st.e.cfg.Full {
		st.began(g) // what led to the go statement comes before what it starts
	}
	st.pushFrame(ng, cl.fn, d.args, cl.free, true)
	if st.e.cfg.Race {
		ng.vc = g.vc.clone()
		ng.vc.tick(ng.id)
		g.vc.tick(g.id)
	}
}

func term64(n int) *Term { return mkConst(64, uint64(n)) }

func (st *State) builtin(g *G, b *ssa.Builtin, args []Value, x *ssa.Call, call *ssa.CallCommon, deferred bool) {
	e := st.e
	if deferred {
		st.inDefer = true
		defer func() { st.inDefer = false }()
	}
	var res Value
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			res = term64(v.len)
		case *Str:
			res = term64(v.len())
		case MapRef:
			if v == 0 {
				res = term64(0)
			} else {
				st.access(g, Ptr{obj: int(v)}, false)
				res = term64(len(st.obj(int(v)).m.entries))
			}
		case ChanRef:
			if v == 0 {
				res = term64(0)
			} else {
				res = term64(len(st.obj(int(v)).c.buf))
			}
		case *Agg:
			res = term64(len(v.elems))
		case Ptr:
			res = term64(int(deref(call.Args[0].Type()).Underlying().(*types.Array).Len()))
		default:
			unsup("len of %T", v)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			res = term64(v.cap)
		case ChanRef:
			if v == 0 {
				res = term64(0)
			} else {
				res = term64(st.obj(int(v)).c.cap)
			}
		case Ptr:
			res = term64(int(deref(call.Args[0].Type()).Underlying().(*types.Array).Len()))
		default:
			unsup("cap of %T", v)
		}
	case "append":
		res = st.appendSlice(g, args[0].(Slice), args[1], under(call.Args[0].Type()))
	case "copy":
		dst := args[0].(Slice)
		n := 0
		switch src := args[1].(type) {
		case Slice:
			n = min(dst.len, src.len)
			st.accessRange(g, src, n, false)
			st.accessRange(g, dst, n, true)
			if n > 0 {
				vals := append([]Value(nil), st.sliceElems(src)[:n]...)
				arr := st.ownArr(dst)
				for i, v := range vals {
					arr.elems[dst.off+i] = freeze(v)
				}
			}
		case *Str:
			n = min(dst.len, src.len())
			st.accessRange(g, dst, n, true)
			if n > 0 {
				arr := st.ownArr(dst)
				for i := 0; i < n; i++ {
					arr.elems[dst.off+i] = src.at(i)
				}
			}
		}
		res = term64(n)
	case "delete":
		st.mapDelete(args[0].(MapRef), args[1])
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v != 0 {
				st.own(int(v)).m.entries = nil
			}
		case Slice:
			if v.len > 0 {
				z := e.zero(st, under(call.Args[0].Type()).(*types.Slice).Elem())
				arr := st.ownArr(v)
				for i := 0; i < v.len; i++ {
					arr.elems[v.off+i] = z
				}
			}
		}
	case "close":
		ch := args[0].(ChanRef)
		g.pend = &Pend{kind: pkClose, cases: []PCase{{ch: ch}}, deferred: deferred, pos: call.Pos()}
		return
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		res = Iface{}
		if n := len(g.frames); n >= 2 {
			cur := g.frames[n-1]
			if cur.deferred {
				p := g.frames[n-2]
				if p.mode == 2 && !p.recovered {
					// own the frame below
					np := *p
					np.tok = st.tok
					np.regs = append([]Value(nil), p.regs...)
					np.defers = append([]Deferred(nil), p.defers...)
					np.recovered = true
					g.frames = append([]*Frame(nil), g.frames...)
					g.frames[n-2] = &np
					res = p.panicVal
				}
			}
		}
	case "print", "println":
	case "min", "max":
		a := args[0]
		for _, o := range args[1:] {
			switch xx := a.(type) {
			case *Term:
				_, signed, _ := intWidth(call.Args[0].Type())
				lt := mkCmp(pick(signed, OSlt, OUlt), o.(*Term), xx)
				if b.Name() == "max" {
					lt = mkCmp(pick(signed, OSlt, OUlt), xx, o.(*Term))
				}
				a = mkIte(lt, o.(*Term), xx)
			default:
				unsup("min/max on %T", a)
			}
		}
		res = a
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			st.rtPanic("value method called using nil pointer")
		}
		res = args[0]
	case "SliceData":
		s := args[0].(Slice)
		if s.obj == 0 {
			res = Ptr{}
		} else if s.cap == 0 {
			res = Ptr{obj: s.obj, path: s.path}
		} else {
			res = Ptr{obj: s.obj, path: pathAdd(s.path, s.off)}
		}
	case "StringData":
		s := args[0].(*Str)
		bs := make([]*Term, s.len())
		for i := range bs {
			bs[i] = s.at(i)
		}
		sl := e.mkByteSlice(st, bs)
		res = Ptr{obj: sl.obj, path: []int{0}}
	case "String":
		p := args[0].(Ptr)
		n := st.concInt(idxTerm(args[1].(*Term), call.Args[1].Type()))
		if n == 0 {
			res = emptyStr
		} else {
			off := p.path[len(p.path)-1]
			res = mkStr(st.bytesOf(Slice{obj: p.obj, path: p.path[:len(p.path)-1], off: off, len: n, cap: n}))
		}
	case "Slice":
		p := args[0].(Ptr)
		n := st.concInt(idxTerm(args[1].(*Term), call.Args[1].Type()))
		if p.obj == 0 {
			res = Slice{}
		} else {
			off := p.path[len(p.path)-1]
			res = Slice{obj: p.obj, path: p.path[:len(p.path)-1], off: off, len: n, cap: n}
		}
	default:
		unsup("builtin %s", b.Name())
	}
	if deferred {
		return
	}
	if x != nil {
		if res != nil {
			st.set(g, x, res)
		}
		st.advance(g)
	}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundUpSize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	return roundUpSize(nc*esz) / esz
}

func (st *State) appendSlice(g *G, s Slice, tail Value, t types.Type) Slice {
	var add []Value
	switch y := tail.(type) {
	case Slice:
		st.accessRange(g, y, y.len, false)
		add = append([]Value(nil), st.sliceElems(y)...)
	case *Str:
		for i := 0; i < y.len(); i++ {
			add = append(add, y.at(i))
		}
	case Iface: // nil
	default:
		unsup("append of %T", tail)
	}
	if len(add) == 0 {
		return s
	}
	et := t.(*types.Slice).Elem()
	n := s.len + len(add)
	if n > s.cap {
		esz := int(st.e.sizes.Sizeof(et))
		nc := growCap(s.cap, n, esz)
		st.accessRange(g, s, s.len, false)
		old := st.sliceElems(s)
		ns := st.newArr(et, n, nc)
		a := st.obj(ns.obj).val.(*Agg)
		for i, v := range old {
			a.elems[i] = freeze(v)
		}
		for i, v := range add {
			a.elems[s.len+i] = freeze(v)
		}
		return ns
	}
	w := s
	w.off += s.len
	w.len = len(add)
	st.accessRange(g, w, len(add), true)
	arr := st.ownArr(s)
	for i, v := range add {
		arr.elems[s.off+s.len+i] = freeze(v)
	}
	return Slice{obj: s.obj, path: s.path, off: s.off, len: n, cap: s.cap}
}
