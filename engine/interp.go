package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) constVal(c *ssa.Const) Value {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.constVal1(c)
	e.consts[c] = v
	return v
}

func (e *Engine) constVal1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(nil, t)
	}
	if w, _, ok := intWidth(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkConst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(w, u)
	}
	if f32, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(c.Value)
		return Float{f, f32}
	}
	if isString(t) {
		return concStr(constant.StringVal(c.Value))
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return complex(0, 0)
	}
	if _, ok := under(t).(*types.Interface); ok {
		unsup("constant of interface type %v", t)
	}
	unsup("constant %v", c)
	return nil
}

func (st *State) get(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return st.e.constVal(x)
	case *ssa.Global:
		return Ptr{obj: st.e.globals[x]}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("engine: no register for %v in %v", v.Name(), f.fn))
	}
	return f.regs[i]
}

// set writes a register of the current frame of g.
func (st *State) set(g *G, v ssa.Value, val Value) {
	f := st.top(g)
	f.regs[f.info.idx[v]] = val
}

func (st *State) pushFrame(g *G, fn *ssa.Function, args []Value, free []Value, discard bool) *Frame {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn.String())
	}
	if len(g.frames) > 400 {
		st.e.limits["call-depth"]++
		panic(pathEnd{"call depth"})
	}
	e := st.e
	if !e.inInit {
		e.funcs[fn] = true
	}
	in := e.info(fn)
	in.hit[0] = true
	f := &Frame{tok: st.tok, fn: fn, info: in, block: fn.Blocks[0], regs: make([]Value, in.n), discard: discard}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("engine: %s called with %d args, wants %d", fn, len(args), len(fn.Params)))
	}
	copy(f.regs, args)
	copy(f.regs[len(args):], free)
	g.frames = append(g.frames[:len(g.frames):len(g.frames)], f)
	return f
}

func (st *State) jump(g *G, to *ssa.BasicBlock) {
	f := st.top(g)
	from := f.block
	f.prev = from
	f.block = to
	f.info.hit[to.Index] = true
	f.pc = 0
	var vals []Value
	n := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for k, p := range to.Preds {
			if p == from {
				vals = append(vals, st.get(f, phi.Edges[k]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		f.regs[f.info.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	f.pc = n
}

func (st *State) advance(g *G) { st.top(g).pc++ }

// runG executes g until it finishes or reaches a visible operation.
func (st *State) runG(g *G) {
	for !g.done && g.pend == nil {
		st.runSlice(g)
	}
}

func (st *State) runSlice(g *G) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(goPanic); ok {
				st.startPanic(g, p.val)
				return
			}
			panic(r)
		}
	}()
	e := st.e
	for !g.done && g.pend == nil {
		st.steps++
		e.steps++
		if st.steps > e.cfg.MaxSteps {
			e.limits["steps"]++
			if !e.inInit {
				st.violate("hang", "path exceeds the step limit", st.model)
			}
			panic(pathEnd{"steps"})
		}
		f := g.frames[len(g.frames)-1]
		if f.mode != 0 {
			st.deferStep(g)
			continue
		}
		if traceOn && !e.inInit {
			ins := f.block.Instrs[f.pc]
			fmt.Printf("G%d %s b%d.%d %v\n", g.id, f.fn.Name(), f.block.Index, f.pc, ins)
			for _, op := range ins.Operands(nil) {
				if op != nil && *op != nil {
					if i, ok := st.e.info(f.fn).idx[*op]; ok {
						fmt.Printf("      %s = %+v\n", (*op).Name(), f.regs[i])
					}
				}
			}
		}
		st.exec(g, f, f.block.Instrs[f.pc])
	}
}

func (st *State) startPanic(g *G, val Value) {
	f := st.top(g)
	f.mode = 2
	f.panicVal = val
	f.recovered = false
}

// deferStep advances a frame that is running its deferred calls.
func (st *State) deferStep(g *G) {
	f := st.top(g)
	if f.mode == 2 && f.recovered {
		f.mode = 3
		f.panicVal = nil
		f.recovered = false
	}
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		if d.bi != nil {
			st.builtin(g, d.bi, d.args, nil, d.call, true)
			return
		}
		st.callValue(g, d.fn, d.args, nil, true)
		return
	}
	switch f.mode {
	case 1:
		f.mode = 0
		f.pc++
	case 2:
		val := f.panicVal
		g.frames = g.frames[: len(g.frames)-1 : len(g.frames)-1]
		if len(g.frames) == 0 {
			g.done = true
			if st.e.inInit {
				unsup("panic in init: %s", st.panicString(val))
			}
			g.where = "goroutine exit"
			st.violate("panic", "uncaught panic: "+st.panicString(val), st.model)
			panic(pathEnd{"panic"})
		}
		nf := st.top(g)
		nf.mode = 2
		nf.panicVal = val
		nf.recovered = false
	case 3:
		f.mode = 0
		if f.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fn.Recover
			f.pc = 0
			return
		}
		var res Value
		rs := f.fn.Signature.Results()
		switch rs.Len() {
		case 0:
		case 1:
			res = st.e.zero(st, rs.At(0).Type())
		default:
			res = st.e.zero(st, rs)
		}
		st.doReturn(g, res)
	}
}

func (st *State) panicString(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case *Str:
		if i.t == st.e.rterrT {
			return "runtime error: " + show(x)
		}
		return show(x)
	case Ptr:
		if x.obj != 0 && st.e.errorString != nil && types.Identical(i.t, st.e.errorString) {
			if a, ok := st.load(x).(*Agg); ok {
				return show(a.elems[0])
			}
		}
	}
	return i.t.String() + " " + show(i.v)
}

// doReturn pops the frame of g and hands the result to the caller.
func (st *State) doReturn(g *G, res Value) {
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[: len(g.frames)-1 : len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		return
	}
	cf := st.top(g)
	if f.discard || f.deferred {
		return // the caller is in a defer loop
	}
	call := cf.block.Instrs[cf.pc].(*ssa.Call)
	if res != nil {
		cf.regs[cf.info.idx[call]] = res
	}
	cf.pc++
}

func (e *Engine) rtErr(msg string) Value {
	if e.rterrT == nil {
		return Iface{t: types.Typ[types.String], v: concStr("runtime error: " + msg)}
	}
	return Iface{t: e.rterrT, v: concStr(msg)}
}

func (st *State) rtPanic(f string, a ...any) {
	panic(goPanic{st.e.rtErr(fmt.Sprintf(f, a...))})
}

func (st *State) checkPtr(p Ptr) {
	if p.obj == 0 {
		st.rtPanic("invalid memory address or nil pointer dereference")
	}
	if n, bad := st.e.uninit[p.obj]; bad && !st.e.allowUninit(n) && st.heap[p.obj] == nil {
		unsup("access to global %s of a package whose initialiser is not executed", n)
	}
}

func (e *Engine) allowUninit(name string) bool { return e.inInit }

func (st *State) exec(g *G, f *Frame, ins ssa.Instruction) {
	e := st.e
	switch x := ins.(type) {
	case *ssa.DebugRef:
		st.advance(g)
	case *ssa.Alloc:
		id := st.alloc(e.zero(st, deref(x.Type())), x.Comment)
		st.set(g, x, Ptr{obj: id})
		st.advance(g)
	case *ssa.BinOp:
		v := st.binop(x.Op, x.X.Type(), x.Y.Type(), st.get(f, x.X), st.get(f, x.Y))
		st.set(g, x, v)
		st.advance(g)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			ch := st.get(f, x.X).(ChanRef)
			g.pend = &Pend{kind: pkComm, cases: []PCase{{ch: ch}}, commaOk: x.CommaOk, instr: x, pos: x.Pos()}
			return
		}
		v := st.unop(g, x, st.get(f, x.X))
		st.set(g, x, v)
		st.advance(g)
	case *ssa.Call:
		st.call(g, f, x)
	case *ssa.ChangeInterface:
		st.set(g, x, st.get(f, x.X))
		st.advance(g)
	case *ssa.ChangeType:
		st.set(g, x, st.get(f, x.X))
		st.advance(g)
	case *ssa.Convert:
		v := st.convert(st.get(f, x.X), x.X.Type(), x.Type())
		st.set(g, x, v)
		st.advance(g)
	case *ssa.MultiConvert:
		v := st.convert(st.get(f, x.X), x.X.Type(), x.Type())
		st.set(g, x, v)
		st.advance(g)
	case *ssa.Defer:
		d := st.prepCall(f, &x.Call)
		nf := st.top(g)
		nf.defers = append(nf.defers, d)
		st.advance(g)
	case *ssa.Extract:
		v := st.get(f, x.Tuple).(*Agg).elems[x.Index]
		st.set(g, x, v)
		st.advance(g)
	case *ssa.Field:
		v := st.get(f, x.X).(*Agg).elems[x.Field]
		st.set(g, x, freeze(v))
		st.advance(g)
	case *ssa.FieldAddr:
		p := st.get(f, x.X).(Ptr)
		if p.obj == 0 {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.sym != nil {
			p = Ptr{obj: p.obj, path: pathAdd(p.path, st.concInt(p.sym))}
		}
		st.set(g, x, Ptr{obj: p.obj, path: pathAdd(p.path, x.Field)})
		st.advance(g)
	case *ssa.Go:
		d := st.prepCall(f, &x.Call)
		st.advance(g)
		st.spawn(g, d)
	case *ssa.If:
		c := st.get(f, x.Cond).(*Term)
		b := st.decide(c)
		blk := st.top(g).block
		if b {
			st.jump(g, blk.Succs[0])
		} else {
			st.jump(g, blk.Succs[1])
		}
	case *ssa.Index:
		v := st.index(st.get(f, x.X), st.get(f, x.Index).(*Term), x.Index.Type())
		st.set(g, x, v)
		st.advance(g)
	case *ssa.IndexAddr:
		v := st.indexAddr(st.get(f, x.X), x.X.Type(), st.get(f, x.Index).(*Term), x.Index.Type())
		st.set(g, x, v)
		st.advance(g)
	case *ssa.Jump:
		st.jump(g, f.block.Succs[0])
	case *ssa.Lookup:
		v := st.lookupInstr(f, x)
		st.set(g, x, v)
		st.advance(g)
	case *ssa.MakeChan:
		n := st.concInt(st.get(f, x.Size).(*Term))
		if n < 0 {
			panic(goPanic{e.rtErr("makechan: size out of range")})
		}
		id := st.alloc(nil, "chan")
		st.obj(id).c = &ChanObj{cap: n}
		st.set(g, x, ChanRef(id))
		st.advance(g)
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.free = append(c.free, st.get(f, b))
		}
		st.set(g, x, c)
		st.advance(g)
	case *ssa.MakeInterface:
		v := st.get(f, x.X)
		st.set(g, x, Iface{t: x.X.Type(), v: freeze(v)})
		st.advance(g)
	case *ssa.MakeMap:
		id := st.alloc(nil, "map")
		st.obj(id).m = &MapObj{}
		st.set(g, x, MapRef(id))
		st.advance(g)
	case *ssa.MakeSlice:
		st.set(g, x, st.makeSlice(x.Type(), st.get(f, x.Len).(*Term), st.get(f, x.Cap).(*Term)))
		st.advance(g)
	case *ssa.MapUpdate:
		m := st.get(f, x.Map).(MapRef)
		st.mapUpdate(m, st.get(f, x.Key), st.get(f, x.Value))
		st.advance(g)
	case *ssa.Next:
		st.next(g, f, x)
	case *ssa.Panic:
		v := st.get(f, x.X)
		if i, ok := v.(Iface); ok && i.t == nil {
			v = e.rtErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanic{v})
	case *ssa.Range:
		v := st.get(f, x.X)
		it := &MapIter{}
		switch m := v.(type) {
		case MapRef:
			it.m = m
			if m != 0 {
				it.entries = append([]MapEntry(nil), st.obj(int(m)).m.entries...)
				st.mapOrder(f.fn, int(m), it.entries)
			}
			st.access(g, Ptr{obj: int(m)}, false)
		case *Str:
			it.isStr = true
			it.str = m
		default:
			unsup("range over %T", v)
		}
		st.set(g, x, it)
		st.advance(g)
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
		case 1:
			res = st.get(f, x.Results[0])
		default:
			a := &Agg{elems: make([]Value, len(x.Results))}
			for i, r := range x.Results {
				a.elems[i] = st.get(f, r)
			}
			res = a
		}
		st.doReturn(g, res)
	case *ssa.RunDefers:
		nf := st.top(g)
		nf.mode = 1
	case *ssa.Select:
		p := &Pend{kind: pkComm, isSelect: true, hasDefault: !x.Blocking, instr: x, pos: x.Pos()}
		for _, s := range x.States {
			c := PCase{ch: st.get(f, s.Chan).(ChanRef), send: s.Dir == types.SendOnly, t: s.Chan.Type()}
			if c.send {
				c.val = st.get(f, s.Send)
			}
			p.cases = append(p.cases, c)
		}
		g.pend = p
	case *ssa.Send:
		ch := st.get(f, x.Chan).(ChanRef)
		g.pend = &Pend{kind: pkComm, cases: []PCase{{ch: ch, send: true, val: st.get(f, x.X)}}, pos: x.Pos()}
	case *ssa.Slice:
		st.set(g, x, st.sliceInstr(f, x))
		st.advance(g)
	case *ssa.SliceToArrayPointer:
		s := st.get(f, x.X).(Slice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if s.len < n {
			st.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
		}
		if s.obj == 0 {
			st.set(g, x, Ptr{})
		} else {
			a := walk(st.obj(s.obj).val, s.path).(*Agg)
			if s.off == 0 && len(a.elems) == n {
				st.set(g, x, Ptr{obj: s.obj, path: s.path})
			} else if !onlyLoaded(x) {
				unsup("slice to array pointer into the middle of an array")
			} else {
				// the pointer is only read through, at once: a copy will do
				st.accessRange(g, s, n, false)
				id := st.alloc(freeze(&Agg{elems: append([]Value(nil), a.elems[s.off:s.off+n]...)}), "array of slice")
				st.set(g, x, Ptr{obj: id})
			}
		}
		st.advance(g)
	case *ssa.Store:
		p := st.get(f, x.Addr).(Ptr)
		if p.obj == 0 {
			st.checkPtr(p)
		}
		st.access(g, p, true)
		st.store(p, st.get(f, x.Val))
		st.advance(g)
	case *ssa.TypeAssert:
		v := st.typeAssert(x, st.get(f, x.X).(Iface))
		st.set(g, x, v)
		st.advance(g)
	default:
		unsup("instruction %T", ins)
	}
}

func (st *State) unop(g *G, x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		p := v.(Ptr)
		st.checkPtr(p)
		st.access(g, p, false)
		return st.load(p)
	case token.NOT:
		return mkBNot(v.(*Term))
	case token.SUB:
		if fl, ok := v.(Float); ok {
			return Float{-fl.v, fl.f32}
		}
		return mkNeg(v.(*Term))
	case token.XOR:
		return mkNot(v.(*Term))
	}
	unsup("unop %v", x.Op)
	return nil
}

func (st *State) binop(op token.Token, xt, yt types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return st.eqv(a, b)
	case token.NEQ:
		return mkBNot(st.eqv(a, b))
	}
	switch x := a.(type) {
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			if x.bytes == nil && y.bytes == nil {
				return concStr(x.s + y.s)
			}
			bs := make([]*Term, 0, x.len()+y.len())
			for i := 0; i < x.len(); i++ {
				bs = append(bs, x.at(i))
			}
			for i := 0; i < y.len(); i++ {
				bs = append(bs, y.at(i))
			}
			return mkStr(bs)
		case token.LSS:
			return ltStr(x, y)
		case token.GTR:
			return ltStr(y, x)
		case token.LEQ:
			return mkBNot(ltStr(y, x))
		case token.GEQ:
			return mkBNot(ltStr(x, y))
		}
	case Float:
		y := b.(Float)
		r := func(v float64) Value {
			if x.f32 {
				v = float64(float32(v))
			}
			return Float{v, x.f32}
		}
		switch op {
		case token.ADD:
			return r(x.v + y.v)
		case token.SUB:
			return r(x.v - y.v)
		case token.MUL:
			return r(x.v * y.v)
		case token.QUO:
			return r(x.v / y.v)
		case token.LSS:
			return mkBool(x.v < y.v)
		case token.LEQ:
			return mkBool(x.v <= y.v)
		case token.GTR:
			return mkBool(x.v > y.v)
		case token.GEQ:
			return mkBool(x.v >= y.v)
		}
	case *Term:
		y := b.(*Term)
		w, signed, _ := intWidth(xt)
		if w == 0 {
			switch op {
			case token.AND, token.LAND:
				return mkAnd(x, y)
			case token.OR, token.LOR:
				return mkOr(x, y)
			}
			unsup("bool op %v", op)
		}
		switch op {
		case token.ADD:
			return mkBin(OAdd, x, y)
		case token.SUB:
			return mkBin(OSub, x, y)
		case token.MUL:
			return mkBin(OMul, x, y)
		case token.QUO, token.REM:
			if st.decide(mkEq(y, mkConst(w, 0))) {
				st.rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.REM && signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return mkBin(o, x, y)
		case token.AND:
			return mkBin(OAnd, x, y)
		case token.OR:
			return mkBin(OOr, x, y)
		case token.XOR:
			return mkBin(OXor, x, y)
		case token.AND_NOT:
			return mkBin(OAnd, x, mkNot(y))
		case token.SHL, token.SHR:
			yw, ysigned, _ := intWidth(yt)
			if ysigned {
				if st.decide(mkCmp(OSlt, y, mkConst(yw, 0))) {
					st.rtPanic("negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			// SMT shifts saturate like Go's when the amount fits the width
			var amt *Term
			if yw <= w {
				amt = resize(y, w, false)
				return mkBin(o, x, amt)
			}
			big := mkCmp(OUle, mkConst(yw, uint64(w)), y)
			amt = resize(y, w, false)
			over := mkConst(w, 0)
			if o == OAShr {
				over = mkBin(OAShr, x, mkConst(w, uint64(w-1)))
			}
			return mkIte(big, over, mkBin(o, x, amt))
		case token.LSS:
			return mkCmp(pick(signed, OSlt, OUlt), x, y)
		case token.LEQ:
			return mkCmp(pick(signed, OSle, OUle), x, y)
		case token.GTR:
			return mkCmp(pick(signed, OSlt, OUlt), y, x)
		case token.GEQ:
			return mkCmp(pick(signed, OSle, OUle), y, x)
		}
	}
	unsup("binop %v on %T", op, a)
	return nil
}

func pick(c bool, a, b Op) Op {
	if c {
		return a
	}
	return b
}

func (st *State) eqv(a, b Value) *Term {
	// interface compared with a concrete value: SSA makes both interfaces, except for nil constants
	return st.e.eq(st, a, b)
}

func (st *State) convert(v Value, from, to types.Type) Value {
	fu, tu := under(from), under(to)
	if w, _, ok := intWidth(to); ok && w > 0 {
		switch x := v.(type) {
		case *Term:
			_, signed, _ := intWidth(from)
			return resize(x, w, signed)
		case Float:
			_, s, _ := intWidth(to)
			if s {
				return mkConst(w, uint64(int64(x.v)))
			}
			return mkConst(w, uint64(x.v))
		case Ptr:
			unsup("pointer to integer conversion")
		}
	}
	if f32, ok := isFloat(to); ok {
		switch x := v.(type) {
		case *Term:
			if !x.isConst() {
				x = mkConst(x.w, st.concretize(x))
			}
			_, signed, _ := intWidth(from)
			if signed {
				return Float{float64(x.sval()), f32}
			}
			return Float{float64(x.val), f32}
		case Float:
			if f32 {
				return Float{float64(float32(x.v)), true}
			}
			return Float{x.v, false}
		}
	}
	if isString(to) {
		switch x := v.(type) {
		case *Str:
			return x
		case Slice:
			if el, ok := fu.(*types.Slice); ok {
				if w, _, _ := intWidth(el.Elem()); w == 8 {
					return mkStr(st.bytesOf(x))
				}
				var rs []rune
				for _, r := range st.sliceElems(x) {
					rs = append(rs, rune(int32(st.concretize(r.(*Term)))))
				}
				return concStr(string(rs))
			}
		case *Term:
			return concStr(string(rune(int32(st.concretize(x)))))
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			if w, _, _ := intWidth(sl.Elem()); w == 8 {
				bs := make([]*Term, s.len())
				for i := range bs {
					bs[i] = s.at(i)
				}
				return st.e.mkByteSlice(st, bs)
			}
			if s.bytes != nil {
				unsup("symbolic string to runes")
			}
			a := &Agg{tok: st.tok}
			for _, r := range s.s {
				a.elems = append(a.elems, mkConst(32, uint64(r)))
			}
			id := st.alloc(a, "runes")
			return Slice{obj: id, len: len(a.elems), cap: len(a.elems)}
		}
		if _, ok := v.(Slice); ok {
			return v
		}
	}
	switch v.(type) {
	case Ptr, ChanRef, MapRef, *Closure, Iface, *Agg:
		return v
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

// idxTerm widens an index to 64 bits.
func idxTerm(i *Term, t types.Type) *Term {
	_, signed, _ := intWidth(t)
	return resize(i, 64, signed)
}

// boundsCheck panics the program if !(0 <= i < n); returns the checked index.
func (st *State) boundsCheck(i *Term, n int) {
	if i.isConst() {
		if i.sval() < 0 || i.sval() >= int64(n) {
			st.rtPanic("index out of range [%d] with length %d", i.sval(), n)
		}
		return
	}
	if !st.decide(mkCmp(OUlt, i, mkConst(64, uint64(n)))) {
		st.rtPanic("index out of range with length %d", n)
	}
}

func (st *State) index(v Value, i *Term, it types.Type) Value {
	i = idxTerm(i, it)
	switch x := v.(type) {
	case *Agg:
		st.boundsCheck(i, len(x.elems))
		if !i.isConst() {
			return st.selectElem(x.elems, i)
		}
		return freeze(x.elems[i.val])
	case *Str:
		st.boundsCheck(i, x.len())
		if !i.isConst() {
			es := make([]Value, x.len())
			for k := range es {
				es[k] = x.at(k)
			}
			return st.selectElem(es, i)
		}
		return x.at(int(i.val))
	}
	unsup("index of %T", v)
	return nil
}

func (st *State) selectElem(es []Value, i *Term) Value {
	n := len(es)
	if _, ok := es[0].(*Term); !ok || n > 512 {
		return freeze(es[st.concretize(i)])
	}
	r := es[n-1].(*Term)
	for k := n - 2; k >= 0; k-- {
		r = mkIte(mkEq(i, mkConst(64, uint64(k))), es[k].(*Term), r)
	}
	return r
}

func (st *State) indexAddr(v Value, vt types.Type, i *Term, it types.Type) Value {
	i = idxTerm(i, it)
	switch x := v.(type) {
	case Slice:
		st.boundsCheck(i, x.len)
		if !i.isConst() {
			i = mkConst(64, st.concretize(i))
		}
		return Ptr{obj: x.obj, path: pathAdd(x.path, x.off+int(i.val))}
	case Ptr:
		if x.obj == 0 {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		at := deref(vt).Underlying().(*types.Array)
		n := int(at.Len())
		st.boundsCheck(i, n)
		if !i.isConst() {
			if w, _, ok := intWidth(at.Elem()); ok && n <= 512 {
				_ = w
				return Ptr{obj: x.obj, path: x.path, sym: i}
			}
			i = mkConst(64, st.concretize(i))
		}
		return Ptr{obj: x.obj, path: pathAdd(x.path, int(i.val))}
	}
	unsup("indexAddr of %T", v)
	return nil
}

const maxAlloc = 1 << 25

func (st *State) makeSlice(t types.Type, l, c *Term) Value {
	e := st.e
	n := st.concLen(l, "len")
	k := st.concLen(c, "cap")
	if n < 0 {
		panic(goPanic{e.rtErr("makeslice: len out of range")})
	}
	if k < n {
		panic(goPanic{e.rtErr("makeslice: cap out of range")})
	}
	if k > maxAlloc {
		st.e.limits["allocation larger than the model allows"]++
		panic(pathEnd{"alloc"})
	}
	et := under(t).(*types.Slice).Elem()
	return st.newArr(et, n, k)
}

// concLen concretises a length or capacity, keeping the number of alternatives small.
func (st *State) concLen(l *Term, what string) int {
	if l.isConst() {
		return int(l.sval())
	}
	w := l.w
	if st.decide(mkCmp(OSlt, l, mkConst(w, 0))) {
		st.rtPanic("makeslice: %s out of range", what)
	}
	// at most cfg.MaxConc different sizes are followed
	lim := uint64(st.e.cfg.MaxConc)
	if lim == 0 {
		lim = 80
	}
	if !st.decide(mkCmp(OUlt, l, mkConst(w, lim))) {
		st.e.limits[fmt.Sprintf("symbolic allocation size of %d or more", lim)]++
		panic(pathEnd{"limit"})
	}
	return st.concInt(l)
}

func (st *State) newArr(et types.Type, n, k int) Slice {
	e := st.e
	a := &Agg{tok: st.tok, elems: make([]Value, k)}
	if k > 0 {
		switch under(et).(type) {
		case *types.Struct, *types.Array:
			for i := range a.elems {
				a.elems[i] = e.zero(st, et)
			}
		default:
			z := e.zero(st, et)
			for i := range a.elems {
				a.elems[i] = z
			}
		}
	}
	id := st.alloc(a, "slice")
	return Slice{obj: id, len: n, cap: k}
}

func (st *State) lookupInstr(f *Frame, x *ssa.Lookup) Value {
	v := st.get(f, x.X)
	if s, ok := v.(*Str); ok {
		return st.index(s, st.get(f, x.Index).(*Term), x.Index.Type())
	}
	m := v.(MapRef)
	key := st.get(f, x.Index)
	r, ok := st.mapGet(m, key)
	if !ok {
		r = st.e.zero(st, under(x.X.Type()).(*types.Map).Elem())
	}
	if x.CommaOk {
		return &Agg{elems: []Value{r, mkBool(ok)}}
	}
	return r
}

func (st *State) mapFind(m MapRef, key Value) int {
	es := st.obj(int(m)).m.entries
	for i := range es {
		if st.decide(st.e.eq(st, es[i].k, key)) {
			return i
		}
	}
	return -1
}

func (st *State) mapGet(m MapRef, key Value) (Value, bool) {
	if m == 0 {
		return nil, false
	}
	st.checkPtr(Ptr{obj: int(m)})
	st.checkHash(key)
	i := st.mapFind(m, key)
	st.access(st.gs[st.cur], Ptr{obj: int(m)}, false)
	if i < 0 {
		return nil, false
	}
	return freeze(st.obj(int(m)).m.entries[i].v), true
}

func (st *State) checkHash(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil {
		if !types.Comparable(i.t) {
			st.rtPanic("hash of unhashable type %s", i.t)
		}
	}
}

func (st *State) mapUpdate(m MapRef, k, v Value) {
	if m == 0 {
		panic(goPanic{st.e.rtErr("assignment to entry in nil map")})
	}
	st.checkHash(k)
	i := st.mapFind(m, k)
	st.access(st.gs[st.cur], Ptr{obj: int(m)}, true)
	o := st.own(int(m))
	if i >= 0 {
		o.m.entries[i].v = freeze(v)
		return
	}
	o.m.entries = append(o.m.entries, MapEntry{freeze(k), freeze(v)})
}

func (st *State) mapDelete(m MapRef, k Value) {
	if m == 0 {
		return
	}
	i := st.mapFind(m, k)
	st.access(st.gs[st.cur], Ptr{obj: int(m)}, true)
	if i < 0 {
		return
	}
	o := st.own(int(m))
	o.m.entries = append(append([]MapEntry(nil), o.m.entries[:i]...), o.m.entries[i+1:]...)
}

// mapOrder puts the entries of a map in an order that is chosen anew on every path, when code of
// the repository ranges over it: the order of insertion or its reverse (with the directive "mode
// allorders", any order of up to 4 entries; with "mode oneorder", only the order of insertion).
// A map keeps its order on one path.
func (st *State) mapOrder(fn *ssa.Function, id int, es []MapEntry) {
	n := len(es)
	if n < 2 || st.e.cfg.OneOrder || st.e.inInit || st.inDefer || !inRepo(fn) {
		return
	}
	few := n <= 4 && st.e.cfg.AllOrders
	orders := 2
	if few {
		for orders = 1; n > 1; n-- {
			orders *= n
		}
		n = len(es)
	}
	slot := min(n, 5)
	k := int(st.obj(id).m.order[slot])
	if k == 0 {
		v := st.peekVar("maporder", 64)
		st.assume(mkCmp(OUlt, v, mkConst(64, uint64(orders))))
		k = int(st.concretize(v)) + 1
		st.names["maporder"]++
		st.own(id).m.order[slot] = uint8(k)
	}
	k--
	if k > 0 {
		st.nondet = true
	}
	if !few {
		if k == 1 {
			slices.Reverse(es)
		}
		return
	}
	// the k-th permutation
	for i := 0; i < n-1; i++ {
		j := i + k%(n-i)
		k /= n - i
		e := es[j]
		copy(es[i+1:j+1], es[i:j])
		es[i] = e
	}
}

func inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif")
}

func (st *State) next(g *G, f *Frame, x *ssa.Next) {
	it := *(st.get(f, x.Iter).(*MapIter))
	if it.isStr {
		if it.pos >= it.str.len() {
			st.set(g, x, &Agg{elems: []Value{vFalse, mkConst(64, 0), mkConst(32, 0)}})
			st.advance(g)
			return
		}
		if it.str.bytes != nil {
			unsup("range over a symbolic string")
		}
		r, n := decodeRune(it.str.s[it.pos:])
		st.set(g, x, &Agg{elems: []Value{vTrue, mkConst(64, uint64(it.pos)), mkConst(32, uint64(r))}})
		it.pos += n
		st.set(g, x.Iter, &it)
		st.advance(g)
		return
	}
	tt := x.Type().(*types.Tuple)
	for it.pos < len(it.entries) {
		en := it.entries[it.pos]
		it.pos++
		// skip entries deleted meanwhile; values are read afresh
		cur := st.obj(int(it.m)).m.entries
		found := -1
		for i := range cur {
			if t := st.e.eq(st, cur[i].k, en.k); t.isTrue() {
				found = i
				break
			}
		}
		if found < 0 {
			continue
		}
		st.set(g, x.Iter, &it)
		st.set(g, x, &Agg{elems: []Value{vTrue, en.k, freeze(cur[found].v)}})
		st.advance(g)
		return
	}
	zk, zv := Value(nil), Value(nil)
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		zk = st.e.zero(st, tt.At(1).Type())
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		zv = st.e.zero(st, tt.At(2).Type())
	}
	st.set(g, x.Iter, &it)
	st.set(g, x, &Agg{elems: []Value{vFalse, zk, zv}})
	st.advance(g)
}

func decodeRune(s string) (rune, int) {
	for i, r := range s {
		_ = i
		n := 1
		if r != 0xfffd {
			n = len(string(r))
		} else if len(s) >= 3 && s[:3] == "\uFFFD" {
			n = 3
		}
		return r, n
	}
	return 0, 0
}

func (st *State) sliceInstr(f *Frame, x *ssa.Slice) Value {
	v := st.get(f, x.X)
	idx := func(o ssa.Value, def int) int {
		if o == nil {
			return def
		}
		t := idxTerm(st.get(f, o).(*Term), o.Type())
		if t.isConst() {
			return int(t.sval())
		}
		return -2
	}
	// symbolic bounds: range check first, then pick a value
	sym := func(o ssa.Value, lim int) {
		if o == nil {
			return
		}
		t := idxTerm(st.get(f, o).(*Term), o.Type())
		if t.isConst() {
			return
		}
		if !st.decide(mkCmp(OUle, t, mkConst(64, uint64(lim)))) {
			st.rtPanic("slice bounds out of range with capacity %d", lim)
		}
		st.concretize(t)
	}
	conc := func(o ssa.Value, def int) int {
		if o == nil {
			return def
		}
		t := idxTerm(st.get(f, o).(*Term), o.Type())
		if t.isConst() {
			return int(t.sval())
		}
		return int(st.concretize(t))
	}
	_ = idx
	switch s := v.(type) {
	case *Str:
		n := s.len()
		sym(x.Low, n)
		sym(x.High, n)
		lo, hi := conc(x.Low, 0), conc(x.High, n)
		if hi < 0 || hi > n {
			st.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			st.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if s.bytes == nil {
			return concStr(s.s[lo:hi])
		}
		return mkStr(s.bytes[lo:hi])
	case Slice:
		sym(x.Low, s.cap)
		sym(x.High, s.cap)
		sym(x.Max, s.cap)
		lo, hi, mx := conc(x.Low, 0), conc(x.High, s.len), conc(x.Max, s.cap)
		st.sliceCheck(lo, hi, mx, s.cap, x.Max != nil)
		if s.obj == 0 {
			return Slice{}
		}
		return Slice{obj: s.obj, path: s.path, off: s.off + lo, len: hi - lo, cap: mx - lo}
	case Ptr:
		if s.obj == 0 {
			st.rtPanic("invalid memory address or nil pointer dereference")
		}
		n := int(deref(x.X.Type()).Underlying().(*types.Array).Len())
		sym(x.Low, n)
		sym(x.High, n)
		sym(x.Max, n)
		lo, hi, mx := conc(x.Low, 0), conc(x.High, n), conc(x.Max, n)
		st.sliceCheck(lo, hi, mx, n, x.Max != nil)
		return Slice{obj: s.obj, path: s.path, off: lo, len: hi - lo, cap: mx - lo}
	}
	unsup("slice of %T", v)
	return nil
}

func (st *State) sliceCheck(lo, hi, mx, cap int, has3 bool) {
	if mx < 0 || mx > cap {
		st.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, cap)
	}
	if hi < 0 || hi > mx {
		st.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, cap)
	}
	if lo < 0 || lo > hi {
		st.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
	}
}

func (st *State) typeAssert(x *ssa.TypeAssert, i Iface) Value {
	ok := false
	var v Value
	if i.t != nil {
		if _, isI := under(x.AssertedType).(*types.Interface); isI {
			ok = st.e.implements(i.t, x.AssertedType)
			v = i
		} else {
			ok = types.Identical(i.t, x.AssertedType)
			v = i.v
		}
	}
	if x.CommaOk {
		if !ok {
			v = st.e.zero(st, x.AssertedType)
		}
		return &Agg{elems: []Value{v, mkBool(ok)}}
	}
	if !ok {
		dyn := "nil"
		if i.t != nil {
			dyn = i.t.String()
		}
		panic(goPanic{st.e.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, x.AssertedType))})
	}
	return v
}

var _ = math.Pi

// onlyLoaded tells whether the pointer is dereferenced in the next instruction and not used
// otherwise.
func onlyLoaded(x *ssa.SliceToArrayPointer) bool {
	refs := *x.Referrers()
	if len(refs) != 1 || refs[0].Block() != x.Block() {
		return false
	}
	u, ok := refs[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	for i, ins := range x.Block().Instrs {
		if ins == ssa.Instruction(x) {
			return i+1 < len(x.Block().Instrs) && x.Block().Instrs[i+1] == ssa.Instruction(u)
		}
	}
	return false
}

// unreached lists, for every function of the repository that was run, the places where its
// unexecuted blocks begin.
func (e *Engine) unreached() map[string][]string {
	out := map[string][]string{}
	for fn := range e.funcs {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif") {
			continue
		}
		l := []string{}
		for _, b := range fn.Blocks {
			if e.infos[fn].hit[b.Index] || b == fn.Recover {
				continue
			}
			for _, ins := range b.Instrs {
				if ins.Pos().IsValid() {
					p := e.fset.Position(ins.Pos())
					l = append(l, fmt.Sprintf("%s:%d:%d", filepath.Base(p.Filename), p.Line, p.Column))
					break
				}
			}
		}
		out[fn.String()] = l
	}
	return out
}
