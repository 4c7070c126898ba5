package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}
var natives = map[string]intrinsic{}
var intrinCache = map[*ssa.Function]intrinsic{}
var intrinSeen = map[*ssa.Function]bool{}

func lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if intrinSeen[fn] {
		return intrinCache[fn]
	}
	intrinSeen[fn] = true
	h := intrinsics[name]
	if h == nil && strings.HasSuffix(name, "$bound") {
		// method value: the wrapper is executed and calls the method itself
		h = nil
	}
	intrinCache[fn] = h
	return h
}

func (c *CallCtx) term(i int) *Term { return c.args[i].(*Term) }
func (c *CallCtx) str(i int) string {
	s := c.args[i].(*Str)
	if s.bytes != nil {
		unsup("symbolic string argument of %s", c.name)
	}
	return s.s
}
func (c *CallCtx) int(i int) int { return c.st.concInt(c.term(i)) }

// newVar declares the next variable called name without consuming it.
func (st *State) peekVar(name string, w uint8) *Term {
	full := fmt.Sprintf("%s#%d", name, st.names[name])
	v := mkVar(full, w)
	for i := len(st.vars) - 1; i >= 0 && i >= len(st.vars)-4; i-- {
		if st.vars[i] == v {
			return v
		}
	}
	st.vars = append(st.vars[:len(st.vars):len(st.vars)], v)
	return v
}

func (st *State) newVar(name string, w uint8) *Term {
	v := st.peekVar(name, w)
	st.names[name]++
	return v
}

func (st *State) newBytes(name string, n int) []*Term {
	k := st.names[name]
	st.names[name]++
	out := make([]*Term, n)
	vars := append([]*Term(nil), st.vars...)
	for i := range out {
		out[i] = mkVar(fmt.Sprintf("%s#%d[%d]", name, k, i), 8)
		vars = append(vars, out[i])
	}
	st.vars = vars
	return out
}

func tuple(vs ...Value) *Agg { return &Agg{elems: vs} }

// errValue builds an error value with the given text.
func (e *Engine) errValue(st *State, msg string) Value {
	id := st.alloc(&Agg{tok: st.tok, elems: []Value{concStr(msg)}}, "error")
	return Iface{t: e.errorString, v: Ptr{obj: id}}
}

func reg(name string, h intrinsic) { intrinsics[name] = h }

func symReg(name string, h intrinsic) { reg(symPath+"."+name, h) }

func (st *State) boolArgs(v Value) []*Term {
	s := v.(Slice)
	var out []*Term
	for _, x := range st.sliceElems(s) {
		out = append(out, x.(*Term))
	}
	return out
}

// cells returns the pointers to the integer leaves below p.
func (st *State) cells(p Ptr) []Ptr {
	st.checkPtr(p)
	var out []Ptr
	var rec func(v Value, path []int)
	rec = func(v Value, path []int) {
		switch x := v.(type) {
		case *Term:
			if x.w > 0 {
				out = append(out, Ptr{obj: p.obj, path: path})
			}
		case *Agg:
			for i, c := range x.elems {
				rec(c, pathAdd(path, i))
			}
		}
	}
	rec(walk(st.obj(p.obj).val, p.path), p.path)
	return out
}

func init() {
	sv := func(w uint8) intrinsic {
		return func(c *CallCtx) (Value, bool) { return c.st.newVar(c.str(0), w), true }
	}
	symReg("Byte", sv(8))
	symReg("Uint16", sv(16))
	symReg("Uint32", sv(32))
	symReg("Uint64", sv(64))
	symReg("Bool", sv(0))
	symReg("Int", func(c *CallCtx) (Value, bool) {
		v := c.st.newVar(c.str(0), 64)
		c.st.assume(mkAnd(mkCmp(OSle, c.term(1), v), mkCmp(OSle, v, c.term(2))))
		return v, true
	})
	symReg("Choose", func(c *CallCtx) (Value, bool) {
		st := c.st
		name := c.str(0)
		n := c.term(1)
		if !n.isConst() {
			n = mkConst(64, st.concretize(n))
		}
		if n.sval() <= 0 {
			panic(pathEnd{"assume"})
		}
		v := st.peekVar(name, 64)
		st.assume(mkCmp(OUlt, v, n))
		if st.e.cfg.Shards > 1 && st.chooses == 0 {
			st.assume(mkEq(mkBin(OURem, v, mkConst(64, uint64(st.e.cfg.Shards))), mkConst(64, uint64(st.e.cfg.Shard))))
		}
		val := st.concretize(v)
		st.names[name]++
		st.chooses++
		return mkConst(64, val), true
	})
	symReg("Bytes", func(c *CallCtx) (Value, bool) {
		n := c.int(1)
		return c.st.e.mkByteSlice(c.st, c.st.newBytes(c.str(0), n)), true
	})
	symReg("Fill", func(c *CallCtx) (Value, bool) {
		s := c.args[1].(Slice)
		bs := c.st.newBytes(c.str(0), s.len)
		if s.len > 0 {
			c.st.accessRange(c.g, s, s.len, true)
			a := c.st.ownArr(s)
			for i, b := range bs {
				a.elems[s.off+i] = b
			}
		}
		return nil, true
	})
	symReg("Assume", func(c *CallCtx) (Value, bool) { c.st.assume(c.term(0)); return nil, true })
	symReg("Assert", func(c *CallCtx) (Value, bool) { c.st.assert(c.term(0), c.str(1)); return nil, true })
	symReg("Fail", func(c *CallCtx) (Value, bool) { c.st.assert(vFalse, c.str(0)); return nil, true })
	symReg("Cover", func(c *CallCtx) (Value, bool) {
		st := c.st
		st.covers = append(st.covers[:len(st.covers):len(st.covers)], c.str(0))
		return nil, true
	})
	symReg("Observe", func(c *CallCtx) (Value, bool) {
		st := c.st
		st.obs = append(st.obs[:len(st.obs):len(st.obs)], Obs{name: c.str(0), val: c.term(1)})
		return nil, true
	})
	symReg("ObserveBytes", func(c *CallCtx) (Value, bool) {
		st := c.st
		st.obs = append(st.obs[:len(st.obs):len(st.obs)], Obs{name: c.str(0), bs: st.bytesOf(c.args[1].(Slice)), isBs: true})
		return nil, true
	})
	symReg("EqBytes", func(c *CallCtx) (Value, bool) {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		if a.len != b.len {
			return vFalse, true
		}
		x, y := c.st.sliceElems(a), c.st.sliceElems(b)
		cs := make([]*Term, 0, len(x))
		for i := range x {
			cs = append(cs, mkEq(x[i].(*Term), y[i].(*Term)))
		}
		return mkAnd(cs...), true
	})
	symReg("And", func(c *CallCtx) (Value, bool) { return mkAnd(c.st.boolArgs(c.args[0])...), true })
	symReg("Or", func(c *CallCtx) (Value, bool) { return mkOr(c.st.boolArgs(c.args[0])...), true })
	symReg("Not", func(c *CallCtx) (Value, bool) { return mkBNot(c.term(0)), true })
	symReg("Ite", func(c *CallCtx) (Value, bool) { return mkIte(c.term(0), c.term(1), c.term(2)), true })
	symReg("Concretize", func(c *CallCtx) (Value, bool) { return mkConst(64, c.st.concretize(c.term(0))), true })
	symReg("Native", func(c *CallCtx) (Value, bool) { return vFalse, true })
	symReg("Param", func(c *CallCtx) (Value, bool) {
		if c.st.e.cfg.Tier == "thorough" {
			return c.args[1], true
		}
		return c.args[0], true
	})
	symReg("Known", func(c *CallCtx) (Value, bool) {
		st := c.st
		id := c.str(0)
		if st.decide(c.term(1)) {
			st.tags = append(st.tags[:len(st.tags):len(st.tags)], id)
		}
		return nil, true
	})
	symReg("Quiesce", func(c *CallCtx) (Value, bool) {
		c.g.pend = &Pend{kind: pkQuiesce, deferred: c.deferred}
		return nil, false
	})
	yield := func(c *CallCtx) (Value, bool) {
		c.g.pend = &Pend{kind: pkYield, deferred: c.deferred}
		return nil, false
	}
	symReg("P", func(c *CallCtx) (Value, bool) {
		if n := c.term(0); n.isConst() && c.st.e.cfg.Full {
			// an earlier statement of it needs nothing more of the schedule
			c.st.began(c.g)
			c.g.sites = []int{int(n.val)}
		}
		return nil, true
	})
	symReg("D", func(c *CallCtx) (Value, bool) { return c.args[0], true })
	symReg("Yield", yield)
	reg("runtime.Gosched", yield)
	reg("time.Sleep", yield)
	symReg("Live", func(c *CallCtx) (Value, bool) {
		n := 0
		for _, g := range c.st.gs {
			if !g.done && g.id != 0 && (g.pend == nil || g.pend.kind != pkTimer) {
				n++
			}
		}
		return term64(n), true
	})

	// ---- sync ----
	lock := func(c *CallCtx) (Value, bool) {
		st := c.st
		cells := st.cells(c.args[0].(Ptr))
		if !st.e.cfg.Full && st.intAt(cells[0]) == 0 {
			st.setInt(cells[0], 1)
			st.acquireVC(c.g, ptrKey(cells[0]))
			return nil, true
		}
		c.g.pend = &Pend{kind: pkLock, cell: cells[0], deferred: c.deferred, pos: callPos(c)}
		return nil, false
	}
	unlock := func(c *CallCtx) (Value, bool) {
		st := c.st
		cells := st.cells(c.args[0].(Ptr))
		if st.intAt(cells[0]) == 0 {
			st.violate("panic", "fatal error: sync: unlock of unlocked mutex", st.model)
			panic(pathEnd{"fatal"})
		}
		st.releaseVC(c.g, ptrKey(cells[0]))
		st.setInt(cells[0], 0)
		return nil, true
	}
	tryLock := func(c *CallCtx) (Value, bool) {
		st := c.st
		cells := st.cells(c.args[0].(Ptr))
		cell := cells[0]
		c.g.pend = &Pend{kind: pkAtomic, cell: cell, name: "TryLock", deferred: c.deferred, pos: callPos(c), run: func(st *State, g *G) Value {
			if st.intAt(cell) == 0 {
				st.setInt(cell, 1)
				return vTrue
			}
			return vFalse
		}}
		return nil, false
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", tryLock)
	rwCells := func(c *CallCtx) (Ptr, Ptr) {
		cells := c.st.cells(c.args[0].(Ptr))
		return cells[0], cells[len(cells)-1]
	}
	reg("(*sync.RWMutex).Lock", func(c *CallCtx) (Value, bool) {
		w, r := rwCells(c)
		c.g.pend = &Pend{kind: pkLock, cell: w, cell2: r, deferred: c.deferred, pos: callPos(c)}
		return nil, false
	})
	reg("(*sync.RWMutex).Unlock", func(c *CallCtx) (Value, bool) {
		w, _ := rwCells(c)
		if c.st.intAt(w) == 0 {
			c.st.violate("panic", "fatal error: sync: Unlock of unlocked RWMutex", c.st.model)
			panic(pathEnd{"fatal"})
		}
		c.st.releaseVC(c.g, ptrKey(w))
		c.st.setInt(w, 0)
		return nil, true
	})
	reg("(*sync.RWMutex).RLock", func(c *CallCtx) (Value, bool) {
		w, r := rwCells(c)
		c.g.pend = &Pend{kind: pkRLock, cell: w, cell2: r, deferred: c.deferred, pos: callPos(c)}
		return nil, false
	})
	reg("(*sync.RWMutex).RUnlock", func(c *CallCtx) (Value, bool) {
		w, r := rwCells(c)
		n := c.st.intAt(r)
		if n == 0 {
			c.st.violate("panic", "fatal error: sync: RUnlock of unlocked RWMutex", c.st.model)
			panic(pathEnd{"fatal"})
		}
		c.st.releaseVC(c.g, ptrKey(w))
		c.st.setInt(r, n-1)
		return nil, true
	})
	wgAdd := func(c *CallCtx, delta int) (Value, bool) {
		st := c.st
		cells := st.cells(c.args[0].(Ptr))
		if delta < 0 || !st.e.cfg.Full {
			n := st.intAt(cells[0]) + delta
			if n < 0 {
				panic(goPanic{Iface{t: types.Typ[types.String], v: concStr("sync: negative WaitGroup counter")}})
			}
			st.setInt(cells[0], n)
			st.releaseVC(c.g, ptrKey(cells[0]))
			return nil, true
		}
		c.g.pend = &Pend{kind: pkWgAdd, cell: cells[0], delta: delta, deferred: c.deferred, pos: callPos(c)}
		return nil, false
	}
	reg("(*sync.WaitGroup).Add", func(c *CallCtx) (Value, bool) { return wgAdd(c, c.int(1)) })
	reg("(*sync.WaitGroup).Done", func(c *CallCtx) (Value, bool) { return wgAdd(c, -1) })
	reg("(*sync.WaitGroup).Wait", func(c *CallCtx) (Value, bool) {
		cells := c.st.cells(c.args[0].(Ptr))
		c.g.pend = &Pend{kind: pkWgWait, cell: cells[0], deferred: c.deferred, pos: callPos(c)}
		return nil, false
	})
	reg("time.expire", func(c *CallCtx) (Value, bool) {
		c.g.pend = &Pend{kind: pkTimer, deferred: c.deferred, pos: callPos(c)}
		return nil, false
	})
	reg("time.now", func(c *CallCtx) (Value, bool) { return tuple(mkConst(64, 1), mkConst(32, 0), mkConst(64, 1)), true })
	reg("time.runtimeNano", func(c *CallCtx) (Value, bool) { return mkConst(64, 1), true })
	reg("time.Now", func(c *CallCtx) (Value, bool) {
		return c.st.e.zero(c.st, c.fn.Signature.Results().At(0).Type()), true
	})
	reg("sort.length", func(c *CallCtx) (Value, bool) {
		return term64(len(c.st.sliceElems(c.args[0].(Iface).v.(Slice)))), true
	})
	reg("sort.swap", func(c *CallCtx) (Value, bool) {
		s := c.args[0].(Iface).v.(Slice)
		i, j := c.st.concretize(c.term(1)), c.st.concretize(c.term(2))
		pi, pj := Ptr{obj: s.obj, path: pathAdd(s.path, s.off+int(i))}, Ptr{obj: s.obj, path: pathAdd(s.path, s.off+int(j))}
		a, b := c.st.load(pi), c.st.load(pj)
		c.st.store(pi, b)
		c.st.store(pj, a)
		return nil, true
	})

	// ---- sync/atomic ----
	at := func(name string, f func(st *State, p Ptr, args []Value) Value) {
		reg("sync/atomic."+name, func(c *CallCtx) (Value, bool) {
			p := c.args[0].(Ptr)
			c.st.checkPtr(p)
			args := c.args
			if !c.st.e.cfg.Full || c.st.e.inInit {
				c.st.acquireVC(c.g, ptrKey(p))
				v := f(c.st, p, args)
				c.st.releaseVC(c.g, ptrKey(p))
				return v, true
			}
			c.g.pend = &Pend{kind: pkAtomic, cell: p, name: name, deferred: c.deferred, pos: callPos(c), run: func(st *State, g *G) Value { return f(st, p, args) }}
			return nil, false
		})
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		at("Load"+w, func(st *State, p Ptr, a []Value) Value { return st.load(p) })
		at("Store"+w, func(st *State, p Ptr, a []Value) Value { st.store(p, a[1]); return nil })
		at("Swap"+w, func(st *State, p Ptr, a []Value) Value { v := st.load(p); st.store(p, a[1]); return v })
		at("CompareAndSwap"+w, func(st *State, p Ptr, a []Value) Value {
			eq := st.e.eq(st, st.load(p), a[1])
			if !eq.isConst() {
				unsup("symbolic compare-and-swap")
			}
			if eq.isTrue() {
				st.store(p, a[2])
			}
			return eq
		})
		at("Add"+w, func(st *State, p Ptr, a []Value) Value {
			v := mkBin(OAdd, st.load(p).(*Term), a[1].(*Term))
			st.store(p, v)
			return v
		})
		at("And"+w, func(st *State, p Ptr, a []Value) Value {
			v := st.load(p).(*Term)
			st.store(p, mkBin(OAnd, v, a[1].(*Term)))
			return v
		})
		at("Or"+w, func(st *State, p Ptr, a []Value) Value {
			v := st.load(p).(*Term)
			st.store(p, mkBin(OOr, v, a[1].(*Term)))
			return v
		})
	}
	atv := func(name string, f func(st *State, p Ptr, args []Value) Value) {
		reg("(*sync/atomic.Value)."+name, func(c *CallCtx) (Value, bool) {
			p := c.args[0].(Ptr)
			c.st.checkPtr(p)
			p = Ptr{obj: p.obj, path: pathAdd(p.path, 0)}
			args := c.args
			c.g.pend = &Pend{kind: pkAtomic, cell: p, name: "Value." + name, deferred: c.deferred, pos: callPos(c), run: func(st *State, g *G) Value { return f(st, p, args) }}
			return nil, false
		})
	}
	atv("Load", func(st *State, p Ptr, a []Value) Value { return st.load(p) })
	atv("Store", func(st *State, p Ptr, a []Value) Value { st.store(p, a[1]); return nil })
	atv("Swap", func(st *State, p Ptr, a []Value) Value { v := st.load(p); st.store(p, a[1]); return v })

	// ---- formatting and logging ----
	reg("fmt.Errorf", func(c *CallCtx) (Value, bool) {
		st := c.st
		format := c.str(0)
		args := st.sliceElems(c.args[1].(Slice))
		msg := st.sprintf(format, args)
		if i := strings.Index(format, "%w"); i >= 0 && st.e.wrapError != nil {
			n := 0
			for k := 0; k < len(format)-1; k++ {
				if format[k] == '%' {
					if format[k+1] == '%' {
						k++
						continue
					}
					if k == i {
						break
					}
					n++
				}
			}
			if n < len(args) {
				if w, ok := args[n].(Iface); ok {
					id := st.alloc(&Agg{tok: st.tok, elems: []Value{msg, w}}, "wrapError")
					return Iface{t: st.e.wrapError, v: Ptr{obj: id}}, true
				}
			}
		}
		id := st.alloc(&Agg{tok: st.tok, elems: []Value{msg}}, "error")
		return Iface{t: st.e.errorString, v: Ptr{obj: id}}, true
	})
	reg("fmt.Sprintf", func(c *CallCtx) (Value, bool) {
		return c.st.sprintf(c.str(0), c.st.sliceElems(c.args[1].(Slice))), true
	})
	reg("fmt.Sprint", func(c *CallCtx) (Value, bool) {
		args := c.st.sliceElems(c.args[0].(Slice))
		isString := func(v Value) bool {
			ifc, ok := v.(Iface)
			if !ok || ifc.t == nil {
				return false
			}
			b, ok := ifc.t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.String
		}
		format := ""
		for i, a := range args {
			if i > 0 && !isString(a) && !isString(args[i-1]) {
				format += " "
			}
			format += "%v"
		}
		return c.st.sprintf(format, args), true
	})
	reg("fmt.Sprintln", func(c *CallCtx) (Value, bool) {
		args := c.st.sliceElems(c.args[0].(Slice))
		return c.st.sprintf(strings.TrimPrefix(strings.Repeat(" %v", len(args)), " ")+"\n", args), true
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(c *CallCtx) (Value, bool) { return tuple(mkConst(64, 0), Iface{}), true })
	}
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg("log."+n, func(c *CallCtx) (Value, bool) { return nil, true })
		reg("(*log.Logger)."+n, func(c *CallCtx) (Value, bool) { return nil, true })
	}

	// ---- bytealg ----
	reg("internal/bytealg.MakeNoZero", func(c *CallCtx) (Value, bool) {
		n := c.int(0)
		if n < 0 || n > maxAlloc {
			c.st.rtPanic("makeslice: len out of range")
		}
		return c.st.newArr(types.Typ[types.Uint8], n, roundUpSize(n)), true
	})
	idxByte := func(st *State, n int, at func(int) *Term, b *Term) Value {
		r := term64(-1)
		for i := n - 1; i >= 0; i-- {
			r = mkIte(mkEq(at(i), b), term64(i), r)
		}
		return r
	}
	reg("internal/bytealg.IndexByte", func(c *CallCtx) (Value, bool) {
		bs := c.st.bytesOf(c.args[0].(Slice))
		return idxByte(c.st, len(bs), func(i int) *Term { return bs[i] }, c.term(1)), true
	})
	reg("internal/bytealg.IndexByteString", func(c *CallCtx) (Value, bool) {
		s := c.args[0].(*Str)
		return idxByte(c.st, s.len(), s.at, c.term(1)), true
	})
	reg("internal/bytealg.Equal", func(c *CallCtx) (Value, bool) {
		return eqStr(mkStr(c.st.bytesOf(c.args[0].(Slice))), mkStr(c.st.bytesOf(c.args[1].(Slice)))), true
	})
	cmp := func(a, b *Str) *Term {
		return mkIte(eqStr(a, b), term64(0), mkIte(ltStr(a, b), term64(-1), term64(1)))
	}
	reg("internal/bytealg.Compare", func(c *CallCtx) (Value, bool) {
		return cmp(mkStr(c.st.bytesOf(c.args[0].(Slice))), mkStr(c.st.bytesOf(c.args[1].(Slice)))), true
	})
	reg("internal/bytealg.CompareString", func(c *CallCtx) (Value, bool) { return cmp(c.args[0].(*Str), c.args[1].(*Str)), true })
	cnt := func(n int, at func(int) *Term, b *Term) Value {
		r := term64(0)
		for i := 0; i < n; i++ {
			r = mkBin(OAdd, r, mkIte(mkEq(at(i), b), term64(1), term64(0)))
		}
		return r
	}
	reg("internal/bytealg.Count", func(c *CallCtx) (Value, bool) {
		bs := c.st.bytesOf(c.args[0].(Slice))
		return cnt(len(bs), func(i int) *Term { return bs[i] }, c.term(1)), true
	})
	reg("internal/bytealg.CountString", func(c *CallCtx) (Value, bool) {
		s := c.args[0].(*Str)
		return cnt(s.len(), s.at, c.term(1)), true
	})

	// ---- crypto/rand ----
	reg("crypto/rand.Read", func(c *CallCtx) (Value, bool) {
		st := c.st
		g := st.e.prog.ImportedPackage("crypto/rand").Var("Reader")
		p := Ptr{obj: st.e.globals[g]}
		if st.heap[p.obj] == nil {
			unsup("crypto/rand.Reader not set by the harness")
		}
		rd := st.load(p)
		fn := st.e.prog.ImportedPackage("io").Func("ReadFull")
		if c.deferred || c.instr == nil {
			unsup("deferred rand.Read")
		}
		st.pushFrame(c.g, fn, []Value{rd, c.args[0]}, nil, false)
		return nil, false
	})

	// ---- crypto/subtle: real code uses assembly-backed helpers ----
	reg("crypto/subtle.ConstantTimeCompare", func(c *CallCtx) (Value, bool) {
		eq := eqStr(mkStr(c.st.bytesOf(c.args[0].(Slice))), mkStr(c.st.bytesOf(c.args[1].(Slice))))
		return mkIte(eq, term64(1), term64(0)), true
	})

	// ---- math ----
	reg("math.Float64bits", func(c *CallCtx) (Value, bool) {
		return mkConst(64, math.Float64bits(c.args[0].(Float).v)), true
	})
	reg("math.Float32bits", func(c *CallCtx) (Value, bool) {
		return mkConst(32, uint64(math.Float32bits(float32(c.args[0].(Float).v)))), true
	})
	reg("math.Float64frombits", func(c *CallCtx) (Value, bool) {
		return Float{math.Float64frombits(c.st.concretize(c.term(0))), false}, true
	})
	reg("math.Float32frombits", func(c *CallCtx) (Value, bool) {
		return Float{float64(math.Float32frombits(uint32(c.st.concretize(c.term(0))))), true}, true
	})
	intrinsics["internal/strconv.float64bits"] = intrinsics["math.Float64bits"]
	intrinsics["internal/strconv.float32bits"] = intrinsics["math.Float32bits"]
	intrinsics["internal/strconv.float64frombits"] = intrinsics["math.Float64frombits"]
	intrinsics["internal/strconv.float32frombits"] = intrinsics["math.Float32frombits"]
	reg("strconv.FormatFloat", func(c *CallCtx) (Value, bool) {
		verb, prec, size := byte(c.st.concretize(c.term(1))), c.int(2), c.int(3)
		return concStr(strconv.FormatFloat(c.args[0].(Float).v, verb, prec, size)), true
	})
	reg("math.Floor", func(c *CallCtx) (Value, bool) { return Float{math.Floor(c.args[0].(Float).v), false}, true })
	reg("math.Ceil", func(c *CallCtx) (Value, bool) { return Float{math.Ceil(c.args[0].(Float).v), false}, true })
	reg("runtime.GC", func(c *CallCtx) (Value, bool) { return nil, true })
	reg("runtime.KeepAlive", func(c *CallCtx) (Value, bool) { return nil, true })
	reg("runtime.SetFinalizer", func(c *CallCtx) (Value, bool) { return nil, true })
	reg("internal/race.Acquire", func(c *CallCtx) (Value, bool) { return nil, true })
	reg("(runtime.errorString).Error", func(c *CallCtx) (Value, bool) {
		return concStr("runtime error: " + c.str(0)), true
	})
	reg("internal/abi.NoEscape", func(c *CallCtx) (Value, bool) { return c.args[0], true })
	reg("internal/abi.Escape", func(c *CallCtx) (Value, bool) { return c.args[0], true })
	reg("internal/stringslite.Clone", func(c *CallCtx) (Value, bool) { return c.args[0], true })
	reg("strings.Clone", func(c *CallCtx) (Value, bool) { return c.args[0], true })
	reg("(*strings.Builder).copyCheck", func(c *CallCtx) (Value, bool) { return nil, true })
}

func callPos(c *CallCtx) (p tokenPos) {
	if c.instr != nil {
		return c.instr.Pos()
	}
	return 0
}

// sprintf formats as far as the arguments are concrete; symbolic parts become placeholders.
func (st *State) sprintf(format string, args []Value) *Str {
	var sb strings.Builder
	ai := 0
	opaque := false
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' || i+1 >= len(format) {
			sb.WriteByte(ch)
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			sb.WriteString(format[i:])
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j
		if verb == '%' {
			sb.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			sb.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			spec = spec[:len(spec)-1] + "v"
		}
		if verb == 'T' {
			if ifc, ok := a.(Iface); ok && ifc.t != nil {
				sb.WriteString(types.TypeString(ifc.t, func(p *types.Package) string { return p.Name() }))
			} else {
				sb.WriteString("<nil>")
			}
			continue
		}
		ifc, ok := a.(Iface)
		if !ok {
			opaque = true
			sb.WriteString("‹?›")
			continue
		}
		if ifc.t == nil {
			sb.WriteString("<nil>")
			continue
		}
		switch v := ifc.v.(type) {
		case *Term:
			if types.NewMethodSet(ifc.t).Len() > 0 || !v.isConst() {
				opaque = true
				sb.WriteString("‹sym›")
				continue
			}
			w, signed, _ := intWidth(ifc.t)
			if w == 0 {
				fmt.Fprintf(&sb, spec, v.val == 1)
			} else if signed {
				fmt.Fprintf(&sb, spec, v.sval())
			} else {
				fmt.Fprintf(&sb, spec, v.val)
			}
		case *Str:
			if v.bytes != nil || types.NewMethodSet(ifc.t).Len() > 0 {
				opaque = true
				sb.WriteString("‹sym›")
				continue
			}
			fmt.Fprintf(&sb, spec, v.s)
		case Ptr:
			if v.obj != 0 && st.e.errorString != nil && types.Identical(ifc.t, st.e.errorString) {
				if s, ok := st.load(v).(*Agg).elems[0].(*Str); ok && s.bytes == nil {
					sb.WriteString(s.s)
					continue
				}
			}
			opaque = true
			sb.WriteString("‹ptr›")
		default:
			opaque = true
			sb.WriteString("‹value›")
		}
	}
	return &Str{s: sb.String(), opaque: opaque}
}

// overrideGlobals sets globals of packages whose initialisers are not executed.
func (e *Engine) overrideGlobals(st *State) {
	for g, id := range e.globals {
		switch g.String() {
		case "net.ErrClosed":
			if e.errorString == nil {
				continue
			}
			o := st.alloc(freeze(&Agg{elems: []Value{concStr("use of closed network connection")}}), "net.ErrClosed")
			st.obj(id).val = Iface{t: e.errorString, v: Ptr{obj: o}}
			delete(e.uninit, id)
		case "unicode.properties":
			// as unicode/tables.go has it, for the Latin-1 characters
			var elems []Value
			for r := rune(0); r <= unicode.MaxLatin1; r++ {
				var b uint64
				for i, in := range []func(rune) bool{unicode.IsControl, unicode.IsPunct, unicode.IsNumber, unicode.IsSymbol} {
					if in(r) {
						b |= 1 << i
					}
				}
				if r == ' ' || r == 0xa0 {
					b |= 1 << 4
				}
				if upper, lower := unicode.IsUpper(r), unicode.IsLower(r); upper || !lower && unicode.IsLetter(r) {
					b |= 1 << 5
				}
				if lower := unicode.IsLower(r); lower || !unicode.IsUpper(r) && unicode.IsLetter(r) {
					b |= 1 << 6
				}
				if unicode.IsPrint(r) {
					b |= 1 << 7
				}
				elems = append(elems, mkConst(8, b))
			}
			st.obj(id).val = freeze(&Agg{elems: elems})
			delete(e.uninit, id)
		case "net.VerifListen", "internal/bytealg.MaxLen":
			delete(e.uninit, id)
		}
	}
}
