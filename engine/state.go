package main

import (
	"fmt"
	"maps"
	"slices"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// State is one symbolic execution path in progress.
type State struct {
	e        *Engine
	tok      *Tok
	heap     map[int]*Obj
	nextObj  int
	gs       []*G
	cur      int
	pc       []*Term
	known    map[int32]bool
	model    *Model
	vars     []*Term
	names    map[string]int
	steps    int
	fired    int // synchronisation steps
	covers   []string
	obs      []Obs
	tags     []string
	trace    []string // schedule trace
	sleep    []*Trans
	shadow   map[int][]acc
	objVC    map[string]VC
	nondet   bool // something a native run cannot be told was chosen
	chooses  int
	forks    int
	nasserts int
	inDefer  bool
	forced   *Trans
	last     int
	hooks    map[string]Value
	order    *siteNode
}

// siteNode is the end of the list of statements begun, in the order of the schedule.
type siteNode struct {
	prev  *siteNode
	g     int
	sites []int
}

// began moves the statement that g begins to the list.
func (st *State) began(g *G) {
	if len(g.sites) > 0 {
		st.order = &siteNode{st.order, g.id, g.sites}
		g.sites = nil
	}
}

// siteTrace is the list, the statements begun by goroutines that wait included.
func (st *State) siteTrace() [][2]int {
	var out [][2]int
	add := func(g int, sites []int) {
		for i := len(sites) - 1; i >= 0; i-- {
			out = append(out, [2]int{g, sites[i]})
		}
	}
	add(st.cur, st.gs[st.cur].sites)
	for i := len(st.gs) - 1; i >= 0; i-- {
		if i != st.cur {
			add(i, st.gs[i].sites)
		}
	}
	for n := st.order; n != nil; n = n.prev {
		add(n.g, n.sites)
	}
	slices.Reverse(out)
	return out
}

// Obs is one observed value (compared with the native run).
type Obs struct {
	name string
	val  *Term
	bs   []*Term
	isBs bool
}

// G is a goroutine.
type G struct {
	id     int
	frames []*Frame
	done   bool
	pend   *Pend
	vc     VC
	where  string
	sites  []int // the statement it begins, unless that is in the list already
}

// Frame is an activation record.
type Frame struct {
	tok       *Tok
	fn        *ssa.Function
	info      *FnInfo
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	regs      []Value
	defers    []Deferred
	mode      int // 0 normal, 1 RunDefers, 2 unwinding a panic, 3 recovered: run the rest, then return
	panicVal  Value
	recovered bool
	discard   bool // result is dropped (deferred call or goroutine entry)
	deferred  bool // called by the defer machinery of the frame below
}

type Deferred struct {
	fn   Value // *Closure, *Native, builtin or bound invoke
	bi   *ssa.Builtin
	args []Value
	call *ssa.CallCommon
}

type goPanic struct{ val Value }
type pathEnd struct{ reason string }

type Violation struct {
	Kind   string            `json:"kind"` // assert, panic, deadlock, hang, race
	Msg    string            `json:"msg"`
	Where  string            `json:"where"`
	Tags   []string          `json:"tags,omitempty"`
	Vals   map[string]uint64 `json:"vals"`
	Bytes  map[string]string `json:"bytes,omitempty"`
	Trace  []string          `json:"trace,omitempty"`
	Nondet bool              `json:"nondet,omitempty"` // may need several native runs
	Sites  [][2]int          `json:"sites,omitempty"`  // goroutine and statement, in the order of the schedule
}

type Sample struct {
	Vals map[string]uint64 `json:"vals"`
	Obs  []ObsVal          `json:"obs"`
	Tags []string          `json:"tags,omitempty"`
}
type ObsVal struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

func (e *Engine) newState() *State {
	return &State{e: e, tok: new(Tok), heap: map[int]*Obj{}, nextObj: e.nextObj, known: map[int32]bool{}, model: newModel(),
		names: map[string]int{}, shadow: map[int][]acc{}, objVC: map[string]VC{}}
}

// clone makes an independent copy; both copies get fresh ownership tokens.
func (st *State) clone() *State {
	n := *st
	st.tok = new(Tok)
	n.tok = new(Tok)
	n.heap = maps.Clone(st.heap)
	n.known = maps.Clone(st.known)
	n.names = maps.Clone(st.names)
	n.gs = make([]*G, len(st.gs))
	for i, g := range st.gs {
		c := *g
		c.frames = append([]*Frame(nil), g.frames...)
		c.vc = g.vc.clone()
		c.sites = g.sites[:len(g.sites):len(g.sites)]
		g.sites = c.sites
		n.gs[i] = &c
	}
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.pc = st.pc
	st.vars = st.vars[:len(st.vars):len(st.vars)]
	n.vars = st.vars
	st.covers = st.covers[:len(st.covers):len(st.covers)]
	n.covers = st.covers
	st.obs = st.obs[:len(st.obs):len(st.obs)]
	n.obs = st.obs
	st.tags = st.tags[:len(st.tags):len(st.tags)]
	n.tags = st.tags
	st.trace = st.trace[:len(st.trace):len(st.trace)]
	n.trace = st.trace
	n.sleep = append([]*Trans(nil), st.sleep...)
	if st.e.cfg.Race {
		n.shadow = make(map[int][]acc, len(st.shadow))
		for k, v := range st.shadow {
			v = v[:len(v):len(v)]
			st.shadow[k] = v
			n.shadow[k] = v
		}
		n.objVC = maps.Clone(st.objVC)
	}
	if st.hooks != nil {
		n.hooks = maps.Clone(st.hooks)
	}
	return &n
}

// top returns the current frame of g, owned by this state.
func (st *State) top(g *G) *Frame {
	f := g.frames[len(g.frames)-1]
	if f.tok == st.tok {
		return f
	}
	n := *f
	n.tok = st.tok
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]Deferred(nil), f.defers...)
	g.frames[len(g.frames)-1] = &n
	return &n
}

func (st *State) where() string {
	if st.cur < len(st.gs) {
		g := st.gs[st.cur]
		return st.whereG(g)
	}
	return "-"
}

func (st *State) whereG(g *G) string {
	var parts []string
	for i := len(g.frames) - 1; i >= 0 && len(parts) < 12; i-- {
		f := g.frames[i]
		p := "-"
		if f.block != nil && f.pc < len(f.block.Instrs) {
			for k := f.pc; k >= 0; k-- {
				if f.block.Instrs[k].Pos().IsValid() {
					p = st.e.pos(f.block.Instrs[k].Pos())
					break
				}
			}
		}
		parts = append(parts, fmt.Sprintf("%s(%s)", f.fn.String(), p))
	}
	return strings.Join(parts, " < ")
}

// note records a condition as known.
func (st *State) note(c *Term, v bool) {
	for c.op == OBNot {
		c = c.args[0]
		v = !v
	}
	st.known[c.id] = v
	if c.op == OBAnd && v || c.op == OBOr && !v {
		for _, a := range c.args {
			st.note(a, v)
		}
	}
}

// add extends the path condition with c (assumed consistent with the model).
func (st *State) add(c *Term) {
	if c.isConst() {
		return
	}
	if v, ok := st.lookup(c); ok && v {
		return
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], c)
	st.note(c, true)
}

func (st *State) lookup(c *Term) (val, ok bool) {
	neg := false
	for c.op == OBNot {
		c = c.args[0]
		neg = !neg
	}
	if c.isConst() {
		return (c.val == 1) != neg, true
	}
	if v, ok := st.known[c.id]; ok {
		return v != neg, true
	}
	switch c.op {
	case OBAnd:
		all := true
		for _, a := range c.args {
			v, ok := st.lookup(a)
			if ok && !v {
				return neg, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return !neg, true
		}
	case OBOr:
		all := true
		for _, a := range c.args {
			v, ok := st.lookup(a)
			if ok && v {
				return !neg, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return neg, true
		}
	}
	return false, false
}

func (e *Engine) query(st *State, extra *Term) (Result, *Model) {
	if time.Now().After(e.deadline) {
		e.stopped = true
		panic(pathEnd{"timeout"})
	}
	return e.solver.check(st.pc, extra, st.vars)
}

// decide resolves a boolean on this path, forking a sibling when both outcomes are feasible.
// It must be called before the current instruction has had any effect.
func (st *State) decide(c *Term) bool {
	if v, ok := st.lookup(c); ok {
		return v
	}
	e := st.e
	if e.inInit {
		unsup("symbolic branch in init")
	}
	if st.inDefer {
		unsup("symbolic branch inside a deferred builtin or modelled call")
	}
	mv := st.model.eval(c) == 1
	other := c
	same := mkBNot(c)
	if mv {
		other, same = same, other
	}
	res, m := e.query(st, other)
	switch res {
	case Sat:
		sib := st.clone()
		sib.model = m
		sib.add(other)
		sib.forks++
		e.push(sib)
		st.add(same)
		st.forks++
	case Unsat:
		st.note(same, true)
	case Unknown:
		e.unknowns++
		e.limits["solver-unknown"]++
		st.add(same)
	}
	return mv
}

// concretize picks one value for t on this path; siblings get the others.
func (st *State) concretize(t *Term) uint64 {
	for {
		if t.isConst() {
			return t.val
		}
		v := st.model.eval(t)
		c := mkEq(t, mkConst(t.w, v))
		if st.decide(c) {
			return v
		}
		// decide answered false only if known false: the model contradicts, so look for another value
		unsup("concretize: inconsistent model")
	}
}

func (st *State) concInt(t *Term) int { return int(sext(st.concretize(t), t.w)) }

// assume restricts the path to c.
func (st *State) assume(c *Term) {
	if v, ok := st.lookup(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if st.model.eval(c) == 1 {
		st.add(c)
		return
	}
	res, m := st.e.query(st, c)
	if res == Sat {
		st.model = m
		st.add(c)
		return
	}
	if res == Unknown {
		st.e.limits["solver-unknown"]++
	}
	panic(pathEnd{"assume"})
}

// assert checks that c holds for every value on this path.
func (st *State) assert(c *Term, msg string) {
	e := st.e
	e.asserts++
	st.nasserts++
	if v, ok := st.lookup(c); ok {
		if v {
			return
		}
		st.violate("assert", msg, st.model)
		panic(pathEnd{"violated"})
	}
	e.assertQ++
	nc := mkBNot(c)
	var bad *Model
	if st.model.eval(nc) == 1 {
		bad = st.model
	} else {
		res, m := e.query(st, nc)
		if e.cross != nil {
			r2, _ := e.cross.check(st.pc, nc, nil)
			if r2 != Unknown && res != Unknown && r2 != res {
				e.crossBad = append(e.crossBad, fmt.Sprintf("%s: %v vs %v", msg, res, r2))
			}
		}
		switch res {
		case Sat:
			bad = m
		case Unknown:
			e.unknowns++
			e.limits["solver-unknown"]++
		}
	}
	if bad == nil {
		st.note(c, true)
		return
	}
	st.violate("assert", msg, bad)
	// continue on the part of the path where it holds
	if st.model.eval(c) != 1 {
		res, m := e.query(st, c)
		if res != Sat {
			panic(pathEnd{"violated"})
		}
		st.model = m
	}
	st.add(c)
}

func (st *State) violate(kind, msg string, m *Model) {
	e := st.e
	key := kind + "|" + msg + "|" + strings.Join(st.tags, ",")
	e.violKeys[key]++
	if e.violKeys[key] > 3 {
		return
	}
	if len(st.tags) == 0 && e.violKeys[key] == 1 {
		// what remains to be explored matters less now
		more := 20 * time.Second
		if e.cfg.Full {
			more = 40 * time.Second
		}
		if d := time.Now().Add(more); d.Before(e.deadline) {
			e.deadline = d
		}
	}
	v := &Violation{Kind: kind, Msg: msg, Where: st.where(), Tags: append([]string(nil), st.tags...), Vals: map[string]uint64{}, Trace: append([]string(nil), st.trace...), Nondet: st.nondet || len(st.gs) > 1}
	for _, x := range st.vars {
		v.Vals[x.name] = m.eval(x)
	}
	if e.cfg.Full {
		v.Sites = st.siteTrace()
	}
	e.viols = append(e.viols, v)
}

func (e *Engine) push(st *State) { e.work = append(e.work, st) }
