package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/WatchBeam/rtmp"
const symPath = modPath + "/zzverif/sym"

func fatalf(f string, a ...any) {
	panic(fatalErr{fmt.Sprintf(f, a...)})
}

type fatalErr struct{ msg string }

// Config of one exploration.
type Config struct {
	Full      bool // explore all interleavings at visible operations
	AllOrders bool
	OneOrder  bool
	Race      bool // vector-clock data race detection
	MaxSteps  int  // instructions per path
	MaxPaths  int
	Timeout   time.Duration
	Tier      string
	Shard     int
	Shards    int
	MaxConc   int // values per concretisation
	CrossSolv bool
}

// Engine holds the program and the exploration.
type Engine struct {
	prog         *ssa.Program
	pkgs         []*ssa.Package
	base         map[int]*Obj
	nextObj      int
	globals      map[*ssa.Global]int
	structFieldT types.Type
	uninit       map[int]string // global object ids of packages whose initialiser was not run
	fset         *token.FileSet
	infos        map[*ssa.Function]*FnInfo
	consts       map[*ssa.Const]Value
	methods      map[methKey]*ssa.Function
	impl         map[implKey]bool
	sizes        types.Sizes

	cfg    Config
	solver *Solver
	cross  *Solver
	work   []*State

	// results
	viols       []*Violation
	violKeys    map[string]int
	unsups      map[string]int
	paths       int
	pathsOK     int
	pathsAssume int
	transitions int
	steps       int64
	asserts     int
	assertQ     int
	unknowns    int
	limits      map[string]int
	covers      map[string]bool
	coverModel  map[string]bool
	funcs       map[*ssa.Function]bool
	samples     []*Sample
	crossBad    []string
	deadline    time.Time
	stopped     bool
	sleepCut    int
	inInit      bool
	maxDepth    int
	maxGs       int
	schedPts    int

	errorString types.Type // *errors.errorString
	wrapError   types.Type
	rtypeT      types.Type
	rterrT      types.Type // runtime.Error stand-in
	errorIface  *types.Interface
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}
type implKey struct {
	t types.Type
	i types.Type
}

// FnInfo caches the register numbering of a function.
type FnInfo struct {
	idx map[ssa.Value]int
	hit []bool // blocks executed
	n   int
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if i := e.infos[fn]; i != nil {
		return i
	}
	in := &FnInfo{idx: map[ssa.Value]int{}, hit: make([]bool, len(fn.Blocks))}
	for _, p := range fn.Params {
		in.idx[p] = in.n
		in.n++
	}
	for _, p := range fn.FreeVars {
		in.idx[p] = in.n
		in.n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				in.idx[v] = in.n
				in.n++
			}
		}
	}
	if fn.Recover != nil {
		for _, ins := range fn.Recover.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if _, done := in.idx[v]; !done {
					in.idx[v] = in.n
					in.n++
				}
			}
		}
	}
	e.infos[fn] = in
	return in
}

// packages whose initialisers are executed; everything else is taken as uninitialised.
var initPkgs = map[string]bool{
	"errors": true, "io": true, "bytes": true, "strings": true, "unicode/utf8": true, "encoding/binary": true,
	"strconv": true, "math": true, "math/bits": true, "sort": true, "bufio": true, "io/ioutil": true, "slices": true,
	"maps": true, "cmp": true, "iter": true, "internal/byteorder": true, "internal/strconv": true, "container/list": true, "container/heap": true, "container/ring": true,
	"hash": true, "context": true, "sync": true, "sync/atomic": true, "internal/bytealg": false,
}

func runsInit(path string) bool {
	return initPkgs[path] || strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/WatchBeam/")
}

// load builds SSA for the given package patterns with the overlay.
func load(dir string, overlay map[string][]byte, env []string, flags []string, patterns []string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, Env: env, BuildFlags: flags, Tests: false,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{
		prog: prog, pkgs: spkgs, base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, uninit: map[int]string{},
		fset: prog.Fset, infos: map[*ssa.Function]*FnInfo{}, consts: map[*ssa.Const]Value{},
		methods: map[methKey]*ssa.Function{}, impl: map[implKey]bool{},
		sizes: types.SizesFor("gc", "amd64"),
	}
	e.errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	lookT := func(pkg, name string) types.Type {
		p := prog.ImportedPackage(pkg)
		if p == nil || p.Type(name) == nil {
			return nil
		}
		return p.Type(name).Type()
	}
	if t := lookT("errors", "errorString"); t != nil {
		e.errorString = types.NewPointer(t)
	}
	if t := lookT("fmt", "wrapError"); t != nil {
		e.wrapError = types.NewPointer(t)
	}
	if t := lookT("reflect", "rtype"); t != nil {
		e.rtypeT = types.NewPointer(t)
	}
	e.structFieldT = lookT("reflect", "StructField")
	if t := lookT("runtime", "errorString"); t != nil {
		e.rterrT = t
	}
	e.reset()
	return e, nil
}

func (e *Engine) reset() {
	e.violKeys = map[string]int{}
	e.unsups = map[string]int{}
	e.limits = map[string]int{}
	e.covers = map[string]bool{}
	e.funcs = map[*ssa.Function]bool{}
	e.viols, e.samples, e.work = nil, nil, nil
	e.paths, e.pathsOK, e.transitions, e.asserts = 0, 0, 0, 0
}

// initGlobals allocates all globals and runs package initialisers.
func (e *Engine) initGlobals() error {
	var all []*ssa.Package
	for _, p := range e.prog.AllPackages() {
		all = append(all, p)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	st := e.newState()
	e.inInit = true
	defer func() { e.inInit = false }()
	for _, p := range all {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			var v Value
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupErr); ok {
							return
						}
						panic(r)
					}
				}()
				v = e.zero(st, deref(g.Type()))
			}()
			id := st.alloc(v, g.String())
			e.globals[g] = id
			if !runsInit(p.Pkg.Path()) && !(strings.HasPrefix(n, "init$guard")) {
				e.uninit[id] = g.String()
			}
		}
	}
	e.overrideGlobals(st)
	for _, p := range e.pkgs {
		if p == nil {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		if err := e.runInit(st, f); err != nil {
			return fmt.Errorf("init of %s: %v", p.Pkg.Path(), err)
		}
	}
	e.base = st.heap
	for _, o := range e.base {
		o.tok = nil
		freezeDeep(o.val)
	}
	e.nextObj = st.nextObj
	return nil
}

func freezeDeep(v Value) {
	if a, ok := v.(*Agg); ok {
		a.tok = nil
		for i, c := range a.elems {
			if ca, ok := c.(*Agg); ok {
				freezeDeep(ca)
			} else if i > 64 {
				break
			}
		}
	}
}

func (e *Engine) runInit(st *State, f *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupErr:
				err = fmt.Errorf("unsupported: %s (at %s)", x.msg, st.where())
			case pathEnd:
				err = fmt.Errorf("path ended in init: %s", x.reason)
			default:
				panic(r)
			}
		}
	}()
	st.gs = []*G{{id: 0}}
	st.cur = 0
	st.pushFrame(st.gs[0], f, nil, nil, true)
	st.steps, st.fired = 0, 0
	e.cfg.MaxSteps = 50_000_000
	st.run()
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/src/"); i >= 0 {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) findFunc(pkg, name string) *ssa.Function {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Func(name)
		}
	}
	return nil
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Name(), m.Pkg()}
	if f, ok := e.methods[k]; ok {
		return f
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methods[k] = f
	return f
}

func (e *Engine) implements(t types.Type, iface types.Type) bool {
	k := implKey{t, iface}
	if v, ok := e.impl[k]; ok {
		return v
	}
	v := types.Implements(t, iface.Underlying().(*types.Interface))
	e.impl[k] = v
	return v
}

var dbg = os.Getenv("VERIF_DEBUG") != ""

var traceOn = os.Getenv("VERIF_TRACE") != ""
