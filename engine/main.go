package main

import (
	"bytes"
	"crypto/sha256"
	"embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

// models are simplified versions of library files that the engine uses instead of the
// real ones, whose implementations rest on the runtime.
//
//go:embed models/*.txt
var models embed.FS

var repoDir = "/repo"

// Harness is one entry point found in /verif/harness.
type Harness struct {
	Pkg, Func string
	Props     []string
	Bounds    []string
	Doc       string
	Full      bool
	Race      bool
	Thorough  bool // thorough tier only
	Quick     time.Duration
	Slow      time.Duration
	Shards    int
	TShards   int
	NoObs     bool // observations depend on the schedule
	AllOrders bool // maps of up to 4 entries are ranged over in every order
	OneOrder  bool // maps are ranged over in the order of insertion
	MaxSteps  int
	Assumes   []string
	Reps      int
	MaxConc   int
}

func (h *Harness) name() string { return h.Pkg + "." + h.Func }

func discover() ([]*Harness, error) {
	var out []*Harness
	dirs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*"))
	fset := token.NewFileSet()
	for _, d := range dirs {
		pkg := filepath.Base(d)
		if pkg == "sym" {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, dcl := range af.Decls {
				fd, ok := dcl.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				h := &Harness{Pkg: pkg, Func: fd.Name.Name, Quick: 100 * time.Second, Slow: 600 * time.Second, Shards: 1}
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(t, "verif:") {
						h.Doc += t + " "
						continue
					}
					key, val, _ := strings.Cut(t[len("verif:"):], " ")
					val = strings.TrimSpace(val)
					switch key {
					case "property":
						h.Props = strings.Fields(val)
					case "bounds":
						h.Bounds = append(h.Bounds, val)
					case "assume":
						h.Assumes = append(h.Assumes, val)
					case "mode":
						h.Full = strings.Contains(val, "full")
						h.Race = strings.Contains(val, "race")
						h.NoObs = strings.Contains(val, "noobs")
						h.AllOrders = strings.Contains(val, "allorders")
						h.OneOrder = strings.Contains(val, "oneorder")
					case "tier":
						h.Thorough = val == "thorough"
					case "timeout":
						fs := strings.Fields(val)
						if n, err := strconv.Atoi(fs[0]); err == nil {
							h.Quick = time.Duration(n) * time.Second
						}
						if len(fs) > 1 {
							if n, err := strconv.Atoi(fs[1]); err == nil {
								h.Slow = time.Duration(n) * time.Second
							}
						}
					case "shards":
						fs := strings.Fields(val)
						h.Shards, _ = strconv.Atoi(fs[0])
						if len(fs) > 1 {
							h.TShards, _ = strconv.Atoi(fs[1])
						}
					case "steps":
						h.MaxSteps, _ = strconv.Atoi(val)
					case "maxconc":
						h.MaxConc, _ = strconv.Atoi(val)
					default:
						return nil, fmt.Errorf("%s: unknown directive %s", h.name(), key)
					}
				}
				if len(h.Props) > 0 {
					out = append(out, h)
				}
			}
		}
	}
	return out, nil
}

// overlayFiles maps virtual files below /repo to files below /verif (and generated text).
func overlayFiles(tmp string, hs []*Harness) (map[string]string, error) {
	m := map[string]string{}
	m[filepath.Join(repoDir, "go.mod")] = filepath.Join(verifDir, "engine/mod/go.mod")
	m[filepath.Join(repoDir, "go.sum")] = filepath.Join(verifDir, "engine/mod/go.sum")
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	for _, f := range files {
		rel, _ := filepath.Rel(filepath.Join(verifDir, "harness"), f)
		m[filepath.Join(repoDir, "zzverif", rel)] = f
	}
	if tmp != "" {
		byPkg := map[string][]*Harness{}
		for _, h := range hs {
			byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
		}
		for pkg, l := range byPkg {
			var b bytes.Buffer
			fmt.Fprintf(&b, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", modPath+"/zzverif/"+pkg, symPath)
			for _, x := range l {
				fmt.Fprintf(&b, "\t\t%q: h.%s,\n", x.Func, x.Func)
			}
			b.WriteString("\t})\n}\n")
			p := filepath.Join(tmp, "run_"+pkg+".go")
			if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
				return nil, err
			}
			m[filepath.Join(repoDir, "zzverif", "run_"+pkg, "main.go")] = p
		}
		dial, err := netDial()
		if err != nil {
			return nil, err
		}
		p := filepath.Join(tmp, "net_dial.go")
		if err := os.WriteFile(p, dial, 0o644); err != nil {
			return nil, err
		}
		m[dialFile] = p
		j, _ := json.Marshal(map[string]any{"Replace": m})
		if err := os.WriteFile(filepath.Join(tmp, "overlay.json"), j, 0o644); err != nil {
			return nil, err
		}
	}
	return m, nil
}

const goBin = "/opt/veriftools/go1.27.3/bin"

var dialFile = filepath.Join(filepath.Dir(goBin), "src/net/dial.go")

// netDial is package net's dial.go with a hook that lets a harness provide the listener.
func netDial() ([]byte, error) {
	b, err := os.ReadFile(dialFile)
	if err != nil {
		return nil, err
	}
	head := []byte("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n")
	i := bytes.Index(b, head)
	if i < 0 {
		return nil, fmt.Errorf("%s: ListenConfig.Listen not found", dialFile)
	}
	i += len(head)
	var out bytes.Buffer
	out.Write(b[:i])
	out.WriteString("\tif VerifListen != nil {\n\t\treturn VerifListen(network, address)\n\t}\n")
	out.Write(b[i:])
	out.WriteString("\n// VerifListen replaces listening when set.\nvar VerifListen func(network, address string) (Listener, error)\n")
	return out.Bytes(), nil
}

func goEnv(flags string) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "PATH", "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "GOWORK", "GOMODCACHE", "GOCACHE", "HOME":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "HOME=/root", "PATH="+goBin+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOFLAGS="+flags)
}

// loadHarnessPkg loads a harness package and what it uses; sites marks the statements, for replaying schedules.
func loadHarnessPkg(tmp, pkg string, sites bool) (*Engine, error) {
	ov, err := overlayFiles("", nil)
	if err != nil {
		return nil, err
	}
	files := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		files[k] = b
	}
	_ = tmp
	if sites {
		for k, v := range perturbable(ov) {
			b, err := os.ReadFile(v)
			if err == nil {
				b, err = perturbed(k, b)
			}
			if err == nil {
				files[k] = b
			}
		}
	}
	for name, file := range map[string]string{"sync_map": "sync/map.go", "sync_pool": "sync/pool.go", "sync_cond": "sync/cond.go",
		"time_sleep": "time/sleep.go", "time_tick": "time/tick.go", "sort_slice": "sort/slice.go"} {
		b, err := models.ReadFile("models/" + name + ".go.txt")
		if err != nil {
			return nil, err
		}
		files[filepath.Join(filepath.Dir(goBin), "src", file)] = b
	}
	if files[dialFile], err = netDial(); err != nil {
		return nil, err
	}
	return load(repoDir, files, goEnv("-mod=readonly"), nil, []string{"./zzverif/" + pkg})
}

// WorkerResult is what one exploration reports.
type WorkerResult struct {
	Harness     string              `json:"harness"`
	Shard       int                 `json:"shard"`
	Err         string              `json:"err,omitempty"`
	Paths       int                 `json:"paths"`
	PathsOK     int                 `json:"paths_ok"`
	PathsAssume int                 `json:"paths_assume"`
	Steps       int64               `json:"steps"`
	Transitions int                 `json:"transitions"`
	SchedPts    int                 `json:"sched_points"`
	SleepCut    int                 `json:"sleep_cut"`
	MaxGs       int                 `json:"max_goroutines"`
	MaxDepth    int                 `json:"max_schedule_depth"`
	Asserts     int                 `json:"asserts"`
	AssertQ     int                 `json:"assert_queries"`
	Queries     int                 `json:"queries"`
	Sat         int                 `json:"sat"`
	Unsat       int                 `json:"unsat"`
	Unknown     int                 `json:"unknown"`
	SolverS     float64             `json:"solver_s"`
	MaxQueryS   float64             `json:"max_query_s"`
	CrossQ      int                 `json:"cross_queries"`
	CrossBad    []string            `json:"cross_bad,omitempty"`
	Limits      map[string]int      `json:"limits,omitempty"`
	Unsup       map[string]int      `json:"unsupported,omitempty"`
	Covers      []string            `json:"covers"`
	Funcs       []string            `json:"funcs"`
	Unreached   map[string][]string `json:"unreached"`
	Viols       []*Violation        `json:"viols,omitempty"`
	Samples     []*Sample           `json:"samples"`
	WallS       float64             `json:"wall_s"`
	Terms       int                 `json:"terms"`
}

func runWorker(h *Harness, tier string, shard, shards int, seed int64, cross bool) (res *WorkerResult) {
	res = &WorkerResult{Harness: h.name(), Shard: shard}
	t0 := time.Now()
	defer func() {
		res.WallS = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if f, ok := r.(fatalErr); ok {
				res.Err = f.msg
				return
			}
			res.Err = fmt.Sprint("engine error: ", r)
			if os.Getenv("VERIF_DEBUG") != "" {
				res.Err += "\n" + string(debug.Stack())
			}
		}
	}()
	e, err := loadHarnessPkg("", h.Pkg, h.Full)
	if err != nil {
		res.Err = err.Error()
		return
	}
	if err := e.initGlobals(); err != nil {
		res.Err = err.Error()
		return
	}
	fn := e.findFunc(modPath+"/zzverif/"+h.Pkg, h.Func)
	if fn == nil {
		res.Err = "no such harness"
		return
	}
	e.solver = newSolver("z3", "-in", "-t:20000")
	defer e.solver.close()
	if cross {
		e.cross = newSolver("cvc5", "--incremental", "--lang=smt2", "--tlimit-per=20000")
		defer e.cross.close()
	}
	to := h.Quick
	if tier == "thorough" {
		to = h.Slow
	}
	if v := os.Getenv("VERIF_TIMEOUT"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			to = time.Duration(n) * time.Second
		}
	}
	cfg := Config{Full: h.Full, Race: h.Race, AllOrders: h.AllOrders, OneOrder: h.OneOrder, Timeout: to, Tier: tier, Shard: shard, Shards: shards, MaxSteps: h.MaxSteps, MaxConc: h.MaxConc}
	e.explore(fn, cfg, seed)
	res.Paths, res.PathsOK, res.PathsAssume, res.Steps = e.paths, e.pathsOK, e.pathsAssume, e.steps
	res.Transitions, res.SchedPts, res.SleepCut, res.MaxGs, res.MaxDepth = e.transitions, e.schedPts, e.sleepCut, e.maxGs, e.maxDepth
	res.Asserts, res.AssertQ = e.asserts, e.assertQ
	s := e.solver
	res.Queries, res.Sat, res.Unsat, res.Unknown = s.queries, s.nsat, s.nunsat, s.nunk
	res.SolverS, res.MaxQueryS = s.dur.Seconds(), s.maxDur.Seconds()
	if e.cross != nil {
		res.CrossQ, res.CrossBad = e.cross.queries, e.crossBad
	}
	res.Limits, res.Unsup = e.limits, e.unsups
	res.Covers = sortedKeys(e.covers)
	res.Unreached = e.unreached()
	for f := range e.funcs {
		res.Funcs = append(res.Funcs, f.String())
	}
	sort.Strings(res.Funcs)
	res.Viols, res.Samples = e.viols, e.samples
	res.Terms = int(termSeq)
	return
}

var _ ssa.Value

func main() {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(fatalErr); ok {
				fmt.Fprintln(os.Stderr, "fatal:", f.msg)
				os.Exit(0)
			}
			panic(r)
		}
	}()
	debug.SetGCPercent(200)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repoDir = v
	}
	args := os.Args[1:]
	flag := func(name, def string) string {
		for i, a := range args {
			if a == "-"+name && i+1 < len(args) {
				return args[i+1]
			}
		}
		return def
	}
	tier := flag("tier", os.Getenv("VERIF_TIER"))
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(flag("seed", os.Getenv("VERIF_SEED")), 10, 64)
	if seed == 0 {
		seed = 1
	}
	if len(args) == 0 {
		fmt.Println("usage: engine check|worker|list|run")
		os.Exit(0)
	}
	hs, err := discover()
	if err != nil {
		fmt.Println("harness error:", err)
		os.Exit(0)
	}
	switch args[0] {
	case "list":
		for _, h := range hs {
			fmt.Println(h.Props, h.name(), "full:", h.Full, "race:", h.Race)
		}
	case "worker":
		want := flag("harness", "")
		shard, _ := strconv.Atoi(flag("shard", "0"))
		shards, _ := strconv.Atoi(flag("shards", "1"))
		for _, h := range hs {
			if h.name() == want {
				res := runWorker(h, tier, shard, shards, seed, flag("cross", "") == "1")
				b, _ := json.MarshalIndent(res, "", " ")
				if o := flag("out", ""); o != "" {
					os.WriteFile(o, b, 0o644)
				} else {
					if os.Getenv("VERIF_BRIEF") != "" {
						res.Funcs, res.Samples, res.Unreached = nil, nil, nil
						b, _ = json.MarshalIndent(res, "", " ")
					}
					fmt.Println(string(b))
				}
				return
			}
		}
		fmt.Println("no harness", want)
	case "check":
		os.Exit(check(flag("property", ""), tier, seed, hs))
	case "build":
		// warm the caches: build the native runners
		tmp, _ := os.MkdirTemp("", "verif")
		defer os.RemoveAll(tmp)
		pk := map[string]bool{}
		for _, h := range hs {
			pk[h.Pkg] = true
		}
		for p := range pk {
			if _, err := buildRunner(tmp, p, hs, false, false); err != nil {
				fmt.Println(err)
			}
		}
	default:
		fmt.Println("unknown command")
	}
}

// buildRunner compiles the native replay program of a harness package against the working tree.
func buildRunner(tmp, pkg string, hs []*Harness, race, perturb bool) (string, error) {
	if _, err := overlayFiles(tmp, hs); err != nil {
		return "", err
	}
	if perturb {
		if err := perturbOverlay(tmp); err != nil {
			return "", err
		}
	}
	bin := filepath.Join(tmp, "run_"+pkg)
	args := []string{"build", "-o", bin}
	if race {
		bin += "_race"
		args = []string{"build", "-race", "-o", bin}
	}
	args = append(args, "./zzverif/run_"+pkg)
	cmd := exec.Command(goBin+"/go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv("-mod=readonly -overlay=" + filepath.Join(tmp, "overlay.json"))
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("build of native runner %s: %v\n%s", pkg, err, out)
	}
	return bin, nil
}

type nativeCase struct {
	Harness string            `json:"harness"`
	Vals    map[string]uint64 `json:"vals"`
	Tier    string            `json:"tier"`
}

type caseOut struct {
	Case    int      `json:"case"`
	Obs     []ObsVal `json:"obs"`
	Asserts int      `json:"asserts"`
	Known   []string `json:"known"`
	Fail    *string  `json:"fail"`
	Assume  *string  `json:"assume"`
	Hang    *int     `json:"hang"`
}

// nativeRun replays cases; returns per-case results, and the outcome of the process.
func nativeRun(tmp, bin string, cases []nativeCase, limitMs int, env ...string) (outs []caseOut, outcome, detail string) {
	f, _ := os.CreateTemp(tmp, "cases*.json")
	b, _ := json.Marshal(cases)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	total := limitMs*len(cases) + 5000
	if total > 180000 {
		total = 180000
	}
	cmd := exec.Command("/usr/bin/timeout", "-s", "KILL", fmt.Sprintf("%.1f", float64(total)/1000),
		"/bin/bash", "-c", `ulimit -v 12000000 2>/dev/null; exec "$@"`, "x", bin, f.Name(), strconv.Itoa(limitMs))
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "GOTRACEBACK=single")
	if strings.HasSuffix(bin, "_race") {
		cmd = exec.Command("/usr/bin/timeout", "-s", "KILL", fmt.Sprintf("%.1f", float64(total)/1000), bin, f.Name(), strconv.Itoa(limitMs))
		cmd.Env = append(append(os.Environ(), env...), "GORACE=halt_on_error=1 exitcode=66")
	}
	cmd.Dir = tmp
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	for _, l := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(l, "SYM ") {
			continue
		}
		var c caseOut
		if json.Unmarshal([]byte(l[4:]), &c) == nil {
			outs = append(outs, c)
		}
	}
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	last := caseOut{}
	if len(outs) > 0 {
		last = outs[len(outs)-1]
	}
	switch {
	case code == 0:
		return outs, "ok", ""
	case code == 3 && last.Fail != nil:
		return outs[:len(outs)-1], "fail", *last.Fail
	case code == 4:
		return outs[:len(outs)-1], "assume", *last.Assume
	case code == 5, code == 137, code == -1:
		if code == 5 {
			outs = outs[:len(outs)-1]
		}
		return outs, "hang", fmt.Sprint("exit ", code)
	case code == 66:
		return outs, "race", firstLines(se.String(), 40)
	default:
		return outs, "panic", firstLines(se.String(), 25)
	}
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// parallel runs jobs with a bounded number of workers.
func parallel(n int, jobs []func()) {
	ch := make(chan func())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				j()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func ncpu() int { return max(1, min(8, runtime.NumCPU())) }

var hexRe = regexp.MustCompile(`[^A-Za-z0-9_.-]+`)

func shortHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("%x", h[:5])
}
