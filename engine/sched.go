package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PKind int

const (
	pkComm PKind = iota // send, receive or select
	pkClose
	pkLock   // sync.Mutex / write lock
	pkRLock  // read lock
	pkWgAdd  // WaitGroup.Add
	pkWgWait // WaitGroup.Wait
	pkAtomic // an atomic operation (closure does the work)
	pkYield
	pkQuiesce
	pkTimer // a timer waiting to go off
	pkCond  // Cond.Wait after unlock
)

type PCase struct {
	ch   ChanRef
	send bool
	val  Value
	t    types.Type
}

// Pend is the visible operation a goroutine is about to perform.
type Pend struct {
	kind       PKind
	cases      []PCase
	isSelect   bool
	hasDefault bool
	commaOk    bool
	instr      ssa.Value
	deferred   bool
	pos        token.Pos
	cell       Ptr // lock state cell
	cell2      Ptr
	delta      int
	run        func(st *State, g *G) Value // pkAtomic
	name       string
	woken      bool
}

// Trans is one transition of the scheduler.
type Trans struct {
	g, c   int // goroutine and case (-1: default, -2: no case)
	g2, c2 int // partner of a rendezvous, or -1
	objs   []string
	desc   string
	prio   int
}

func (t *Trans) same(u *Trans) bool {
	return t.g == u.g && t.c == u.c && t.g2 == u.g2 && t.c2 == u.c2
}

func (t *Trans) dependent(u *Trans) bool {
	if t.g == u.g || t.g == u.g2 || (t.g2 >= 0 && (t.g2 == u.g || t.g2 == u.g2)) {
		return true
	}
	for _, a := range t.objs {
		for _, b := range u.objs {
			if a == b {
				return true
			}
		}
	}
	return false
}

func (st *State) intAt(p Ptr) int {
	t := st.load(p).(*Term)
	if !t.isConst() {
		unsup("symbolic lock or counter state")
	}
	return int(t.sval())
}

func (st *State) setInt(p Ptr, v int) {
	t := st.load(p).(*Term)
	st.store(p, mkConst(t.w, uint64(int64(v))))
}

func ptrKey(p Ptr) string { return fmt.Sprint("p", p.obj, p.path) }

// transitions lists what can happen next.
func (st *State) transitions() []*Trans {
	var ts []*Trans
	e := st.e
	add := func(t *Trans) { ts = append(ts, t) }
	type end struct {
		g, c int
	}
	recvs := map[ChanRef][]end{}
	for _, g := range st.gs {
		if g.done || g.pend == nil || g.pend.kind != pkComm {
			continue
		}
		for ci, c := range g.pend.cases {
			if !c.send && c.ch != 0 {
				recvs[c.ch] = append(recvs[c.ch], end{g.id, ci})
			}
		}
	}
	for _, g := range st.gs {
		if g.done || g.pend == nil {
			continue
		}
		p := g.pend
		one := func(obj, desc string) {
			add(&Trans{g: g.id, c: -2, g2: -1, c2: -1, objs: []string{obj}, desc: fmt.Sprintf("g%d %s %s", g.id, desc, e.pos(p.pos))})
		}
		switch p.kind {
		case pkComm:
			ready, hard := false, false
			for ci, c := range p.cases {
				if c.ch == 0 {
					continue
				}
				ch := st.obj(int(c.ch)).c
				obj := fmt.Sprint("c", int(c.ch))
				if c.send {
					if ch.closed {
						ready, hard = true, true
						add(&Trans{g: g.id, c: ci, g2: -1, c2: -1, objs: []string{obj}, desc: fmt.Sprintf("g%d send-on-closed %s", g.id, e.pos(p.pos))})
						continue
					}
					if len(ch.buf) < ch.cap {
						ready, hard = true, true
						add(&Trans{g: g.id, c: ci, g2: -1, c2: -1, objs: []string{obj}, desc: fmt.Sprintf("g%d send(buffered) %s", g.id, e.pos(p.pos))})
						continue
					}
					if ch.cap == 0 {
						for _, r := range recvs[c.ch] {
							if r.g == g.id {
								continue
							}
							ready = true
							add(&Trans{g: g.id, c: ci, g2: r.g, c2: r.c, objs: []string{obj}, desc: fmt.Sprintf("g%d->g%d %s -> %s", g.id, r.g, e.pos(p.pos), e.pos(st.gs[r.g].pend.pos))})
						}
					}
				} else {
					if len(ch.buf) > 0 || ch.closed {
						ready, hard = true, true
						add(&Trans{g: g.id, c: ci, g2: -1, c2: -1, objs: []string{obj}, desc: fmt.Sprintf("g%d recv %s", g.id, e.pos(p.pos))})
					} else if p.hasDefault {
						for _, o := range st.gs {
							if o.id == g.id || o.done || o.pend == nil || o.pend.kind != pkComm {
								continue
							}
							for _, oc := range o.pend.cases {
								if oc.send && oc.ch == c.ch {
									ready = true
								}
							}
						}
					}
				}
			}
			// a partner that is about to send or receive may not have arrived yet, so a
			// rendezvous does not rule out the default case; a buffered value or a closed
			// channel does. The harness's own polls follow a Quiesce and are exact.
			if p.hasDefault && (!ready || (e.cfg.Full && g.id != 0 && !hard)) {
				var objs []string
				for _, c := range p.cases {
					if c.ch != 0 {
						objs = append(objs, fmt.Sprint("c", int(c.ch)))
					}
				}
				add(&Trans{g: g.id, c: -1, g2: -1, c2: -1, objs: objs, desc: fmt.Sprintf("g%d default %s", g.id, e.pos(p.pos)), prio: 1})
			}
		case pkClose:
			if p.cases[0].ch == 0 {
				one("none", "close nil")
			} else {
				one(fmt.Sprint("c", int(p.cases[0].ch)), "close")
			}
		case pkLock:
			if st.intAt(p.cell) == 0 && (p.cell2.obj == 0 || st.intAt(p.cell2) == 0) {
				one(ptrKey(p.cell), "lock")
			}
		case pkRLock:
			if st.intAt(p.cell) == 0 {
				one(ptrKey(p.cell), "rlock")
			}
		case pkWgAdd:
			one(ptrKey(p.cell), "wg.Add")
		case pkWgWait:
			if st.intAt(p.cell) == 0 {
				one(ptrKey(p.cell), "wg.Wait")
			}
		case pkAtomic:
			one(ptrKey(p.cell), p.name)
		case pkCond:
			if p.woken {
				one(ptrKey(p.cell), "cond wake")
			}
		case pkYield:
			add(&Trans{g: g.id, c: -2, g2: -1, c2: -1, desc: fmt.Sprintf("g%d yield", g.id), prio: 1})
		}
	}
	idle := len(ts) == 0
	if idle {
		for _, g := range st.gs {
			if !g.done && g.pend != nil && g.pend.kind == pkQuiesce {
				add(&Trans{g: g.id, c: -2, g2: -1, c2: -1, objs: []string{"quiesce"}, desc: "quiesce"})
				break
			}
		}
	}
	// a timer goes off at any time, or in cooperative runs when nothing else happens
	if e.cfg.Full || len(ts) == 0 {
		for _, g := range st.gs {
			if !g.done && g.pend != nil && g.pend.kind == pkTimer {
				add(&Trans{g: g.id, c: -2, g2: -1, c2: -1, objs: []string{fmt.Sprint("timer", g.id)}, desc: fmt.Sprintf("g%d timer goes off", g.id), prio: 2})
				if !e.cfg.Full {
					break
				}
			}
		}
	}
	return ts
}

// run explores this path to its end (or until it is cut).
func (st *State) run() {
	e := st.e
	for {
		if st.forced != nil {
			t := st.forced
			st.forced = nil
			st.fire(t)
		}
		for i := 0; i < len(st.gs); i++ {
			g := st.gs[i]
			if !g.done && g.pend == nil {
				st.cur = g.id
				st.runG(g)
			}
		}
		// newly spawned goroutines are appended and have been run above
		again := false
		for _, g := range st.gs {
			if !g.done && g.pend == nil {
				again = true
			}
		}
		if again {
			continue
		}
		if st.gs[0].done {
			return
		}
		ts := st.transitions()
		if len(ts) == 0 {
			if e.inInit {
				unsup("blocked in init")
			}
			st.cur = 0
			st.violate("deadlock", "deadlock: the harness is blocked forever", st.model)
			panic(pathEnd{"deadlock"})
		}
		st.schedule(ts)
	}
}

func (st *State) schedule(ts []*Trans) {
	e := st.e
	if !e.cfg.Full {
		// cooperative: highest priority (lowest prio value), prefer goroutines other than main, then lowest id;
		// a select with several ready cases forks.
		best := ts[0]
		for _, t := range ts[1:] {
			if t.prio < best.prio || (t.prio == best.prio && st.coopRank(t) < st.coopRank(best)) {
				best = t
			}
		}
		g := st.gs[best.g]
		var alts []*Trans
		for _, t := range ts {
			if t == best {
				continue
			}
			if t.prio != best.prio {
				continue
			}
			// same select, other ready case; or another sender for the same receiver's select
			if g.pend.isSelect && t.g == best.g && t.c != best.c {
				alts = append(alts, t)
			} else if best.g2 >= 0 && t.g2 == best.g2 && st.gs[best.g2].pend.isSelect && t.c2 != best.c2 {
				alts = append(alts, t)
			} else if best.g2 >= 0 && st.gs[best.g2].pend.isSelect && t.g == best.g2 {
				alts = append(alts, t)
			} else if best.g2 < 0 && g.pend.isSelect && t.g2 == best.g {
				alts = append(alts, t)
			}
		}
		for _, t := range alts {
			sib := st.clone()
			sib.forced = t
			e.push(sib)
		}
		st.fire(best)
		return
	}
	e.schedPts++
	var todo []*Trans
	for _, t := range ts {
		asleep := false
		for _, s := range st.sleep {
			if s.same(t) {
				asleep = true
				break
			}
		}
		if !asleep {
			todo = append(todo, t)
		}
	}
	if len(todo) == 0 {
		e.sleepCut++
		panic(pathEnd{"sleep"})
	}
	// explored order: todo[0] now, others pushed with sleep sets
	sort.SliceStable(todo, func(i, j int) bool { return todo[i].prio < todo[j].prio })
	base := st.sleep
	for i := len(todo) - 1; i >= 1; i-- {
		sib := st.clone()
		sib.forced = todo[i]
		sl := append([]*Trans(nil), base...)
		sl = append(sl, todo[:i]...)
		sib.sleep = sl
		e.push(sib)
	}
	st.sleep = append([]*Trans(nil), base...)
	st.fire(todo[0])
}

func (st *State) coopRank(t *Trans) int {
	// run whoever is not main first; round robin starting after the last one that moved
	n := len(st.gs)
	r := (t.g - st.last - 1 + 2*n) % n
	if t.g == 0 && t.g2 < 0 {
		r += n
	}
	return r
}

// bounds on the synchronisation steps of one path
const maxFired, maxFiredFull = 20000, 600

// tooBig tells whether the worker holds more memory than its share.
func tooBig() bool {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc > 3500<<20
}

// fire performs transition t.
func (st *State) fire(t *Trans) {
	e := st.e
	e.transitions++
	if e.cfg.Full {
		var sl []*Trans
		for _, s := range st.sleep {
			if !s.dependent(t) {
				sl = append(sl, s)
			}
		}
		st.sleep = sl
	}
	st.last = t.g
	if len(st.gs) > 1 {
		st.trace = append(st.trace[:len(st.trace):len(st.trace)], t.desc)
	}
	if st.fired++; st.fired > maxFired || e.cfg.Full && st.fired > maxFiredFull {
		e.limits["schedule length"]++
		if !e.inInit {
			st.violate("hang", "a schedule never ends", st.model)
		}
		panic(pathEnd{"steps"})
	}
	if e.transitions%2048 == 0 && tooBig() {
		e.stopped = true
		e.limits["memory"]++
		e.deadline = time.Now()
		panic(pathEnd{"memory"})
	}
	g := st.gs[t.g]
	p := g.pend
	st.cur = t.g
	if e.cfg.Full {
		if p.kind == pkQuiesce {
			for _, o := range st.gs {
				if o != g {
					st.began(o)
				}
			}
		}
		// of a rendezvous with a poll, the other side comes first
		if t.g2 >= 0 && !p.hasDefault {
			st.began(g)
		}
		if t.g2 >= 0 {
			st.began(st.gs[t.g2])
		}
		st.began(g)
	}
	switch p.kind {
	case pkComm:
		if t.c == -1 {
			st.complete(g, p, -1, nil, false)
			return
		}
		c := p.cases[t.c]
		o := st.own(int(c.ch))
		ch := o.c
		if c.send {
			if ch.closed {
				g.pend = nil
				st.startPanic(g, e.rtErr2("send on closed channel"))
				return
			}
			if t.g2 >= 0 {
				r := st.gs[t.g2]
				rp := r.pend
				if e.cfg.Race {
					vcRendezvous(g, r)
				}
				st.complete(g, p, t.c, nil, false)
				st.complete(r, rp, t.c2, c.val, true)
				return
			}
			ch.buf = append(ch.buf, freeze(c.val))
			if e.cfg.Race {
				ch.vcs = append(ch.vcs, g.vc.clone())
				g.vc.join(ch.recvVC)
				g.vc.tick(g.id)
			}
			st.complete(g, p, t.c, nil, false)
			return
		}
		if len(ch.buf) > 0 {
			v := ch.buf[0]
			ch.buf = ch.buf[1:]
			if e.cfg.Race {
				g.vc.join(ch.vcs[0])
				ch.vcs = ch.vcs[1:]
				ch.recvVC = ch.recvVC.clone()
				ch.recvVC.join(g.vc)
				g.vc.tick(g.id)
			}
			st.complete(g, p, t.c, v, true)
			return
		}
		if !ch.closed {
			panic("engine: recv not ready")
		}
		if e.cfg.Race {
			g.vc.join(ch.closeVC)
		}
		st.complete(g, p, t.c, nil, false)
	case pkClose:
		g.pend = nil
		c := p.cases[0].ch
		if c == 0 {
			st.startPanic(g, e.rtErr2("close of nil channel"))
			return
		}
		o := st.own(int(c))
		if o.c.closed {
			st.startPanic(g, e.rtErr2("close of closed channel"))
			return
		}
		o.c.closed = true
		if e.cfg.Race {
			o.c.closeVC = g.vc.clone()
			g.vc.tick(g.id)
		}
		// senders blocked on this channel panic when scheduled
		if !p.deferred {
			st.advance(g)
		}
	case pkLock:
		st.setInt(p.cell, 1)
		st.acquireVC(g, ptrKey(p.cell))
		st.doneOp(g, p, nil)
	case pkRLock:
		st.setInt(p.cell2, st.intAt(p.cell2)+1)
		st.acquireVC(g, ptrKey(p.cell))
		st.doneOp(g, p, nil)
	case pkWgAdd:
		n := st.intAt(p.cell) + p.delta
		if n < 0 {
			g.pend = nil
			st.startPanic(g, Iface{t: types.Typ[types.String], v: concStr("sync: negative WaitGroup counter")})
			return
		}
		st.setInt(p.cell, n)
		if p.delta < 0 {
			st.releaseVC(g, ptrKey(p.cell))
		}
		st.doneOp(g, p, nil)
	case pkWgWait:
		st.acquireVC(g, ptrKey(p.cell))
		st.doneOp(g, p, nil)
	case pkAtomic:
		st.acquireVC(g, ptrKey(p.cell))
		v := p.run(st, g)
		st.releaseVC(g, ptrKey(p.cell))
		st.doneOp(g, p, v)
	case pkYield, pkQuiesce, pkTimer:
		st.doneOp(g, p, nil)
	default:
		unsup("transition kind %d", p.kind)
	}
}

func (e *Engine) rtErr2(msg string) Value {
	// plainError: printed without the "runtime error: " prefix, still a runtime.Error
	return e.rtErr(msg)
}

// doneOp completes a call-shaped visible operation.
func (st *State) doneOp(g *G, p *Pend, v Value) {
	g.pend = nil
	if p.deferred {
		return
	}
	f := st.top(g)
	if call, ok := f.block.Instrs[f.pc].(*ssa.Call); ok && v != nil {
		st.set(g, call, v)
	}
	st.advance(g)
}

// complete finishes a channel operation of g.
func (st *State) complete(g *G, p *Pend, ci int, v Value, ok bool) {
	g.pend = nil
	if p.isSelect {
		sel := p.instr.(*ssa.Select)
		tup := &Agg{elems: []Value{mkConst(64, uint64(int64(ci))), mkBool(ok)}}
		for i, s := range sel.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := under(s.Chan.Type()).(*types.Chan).Elem()
			if i == ci && ok {
				tup.elems = append(tup.elems, v)
			} else {
				tup.elems = append(tup.elems, st.e.zero(st, et))
			}
		}
		st.set(g, sel, tup)
		st.advance(g)
		return
	}
	if !p.cases[0].send {
		x := p.instr.(*ssa.UnOp)
		if !ok {
			v = st.e.zero(st, under(x.X.Type()).(*types.Chan).Elem())
		}
		if p.commaOk {
			v = &Agg{elems: []Value{v, mkBool(ok)}}
		}
		st.set(g, x, v)
	}
	st.advance(g)
}

// ---- vector clocks and race detection ----

type VC []int

func (v VC) clone() VC { return append(VC(nil), v...) }
func (v *VC) at(i int) int {
	if i < len(*v) {
		return (*v)[i]
	}
	return 0
}
func (v *VC) tick(i int) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i]++
}
func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func vcRendezvous(a, b *G) {
	av := a.vc.clone()
	a.vc = a.vc.clone()
	a.vc.join(b.vc)
	b.vc = b.vc.clone()
	b.vc.join(av)
	a.vc.tick(a.id)
	b.vc.tick(b.id)
}

func (st *State) acquireVC(g *G, k string) {
	if st.e.cfg.Race {
		g.vc.join(st.objVC[k])
	}
}
func (st *State) releaseVC(g *G, k string) {
	if st.e.cfg.Race {
		n := st.objVC[k].clone()
		n.join(g.vc)
		st.objVC[k] = n
		g.vc.tick(g.id)
	}
}

type acc struct {
	path  []int
	g     int
	clk   int
	write bool
	where string
}

func overlap(a, b []int) bool {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (st *State) access(g *G, p Ptr, write bool) {
	if !st.e.cfg.Race || st.e.inInit || p.obj == 0 {
		return
	}
	if len(st.gs) < 2 {
		// still record: another goroutine may be started later, but it will be ordered after us
		return
	}
	rs := st.shadow[p.obj]
	n := 0
	out := make([]acc, 0, len(rs)+1)
	for _, r := range rs {
		if overlap(r.path, p.path) {
			ordered := r.g == g.id || r.clk <= g.vc.at(r.g)
			if !ordered && (write || r.write) {
				st.violate("race", fmt.Sprintf("data race between %s and %s", r.where, st.here(g)), st.model)
				continue
			}
			if ordered && len(r.path) >= len(p.path) && (write || !r.write) && (r.g == g.id || write) {
				continue // superseded
			}
		}
		out = append(out, r)
		n++
	}
	out = append(out, acc{path: p.path, g: g.id, clk: g.vc.at(g.id), write: write, where: st.here(g)})
	st.shadow[p.obj] = out
}

func (st *State) here(g *G) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.block != nil && f.pc < len(f.block.Instrs) {
			return fmt.Sprintf("%s", f.fn.String())
		}
	}
	return "?"
}

func (st *State) accessRange(g *G, s Slice, n int, write bool) {
	if !st.e.cfg.Race || st.e.inInit || s.obj == 0 || n == 0 || len(st.gs) < 2 {
		return
	}
	for i := 0; i < n; i++ {
		st.access(g, Ptr{obj: s.obj, path: pathAdd(s.path, s.off+i)}, write)
	}
}
