// Package sym is the interface between harnesses and the symbolic engine.
//
// The engine intercepts every function of this package. Compiled natively, the same
// functions read the values of a recorded solver model, so that a counterexample or a
// sampled path can be replayed against the real build.
package sym

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

// Case is one recorded run.
type Case struct {
	Harness string            `json:"harness"`
	Vals    map[string]uint64 `json:"vals"`
	Tier    string            `json:"tier"`
}

var (
	mu       sync.Mutex
	cur      Case
	counts   map[string]int
	observed []obs
	known    []string
	base     map[string]bool
	asserts  int
	scale    = 1
)

func next(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := counts[name]
	counts[name] = k + 1
	return name + "#" + strconv.Itoa(k)
}

func val(name string) uint64 { return cur.Vals[next(name)] }

// Byte, Uint16, Uint32, Uint64 and Bool are arbitrary values.
func Byte(name string) byte     { return byte(val(name)) }
func Uint16(name string) uint16 { return uint16(val(name)) }
func Uint32(name string) uint32 { return uint32(val(name)) }
func Uint64(name string) uint64 { return val(name) }
func Bool(name string) bool     { return val(name) != 0 }

// Int is an arbitrary value in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(val(name))
	if v < lo || v > hi {
		skip("Int out of range")
	}
	return v
}

// Choose is an arbitrary value in [0, n); every value is a separate path.
func Choose(name string, n int) int {
	v := int(val(name))
	if v < 0 || v >= n {
		skip("Choose out of range")
	}
	return v
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	Fill(name, b)
	return b
}

// Fill overwrites b with arbitrary bytes.
func Fill(name string, b []byte) {
	k := next(name)
	for i := range b {
		b[i] = byte(cur.Vals[k+"["+strconv.Itoa(i)+"]"])
	}
}

func skip(why string) { report(map[string]any{"assume": why}); os.Exit(4) }

// Assume restricts the run to cond.
func Assume(cond bool) {
	if !cond {
		skip("assumption does not hold")
	}
}

// Assert states the property.
func Assert(cond bool, msg string) {
	mu.Lock()
	asserts++
	mu.Unlock()
	if !cond {
		mu.Lock()
		report(map[string]any{"fail": msg})
		os.Exit(3)
	}
}

func Fail(msg string) { Assert(false, msg) }

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Observe and ObserveBytes record values compared between engine and native run.
func Observe(name string, v uint64) {
	mu.Lock()
	observed = append(observed, obs{name, strconv.FormatUint(v, 10)})
	mu.Unlock()
}
func ObserveBytes(name string, b []byte) {
	mu.Lock()
	observed = append(observed, obs{name, hex.EncodeToString(b)})
	mu.Unlock()
}

// EqBytes, And, Or, Not and Ite are evaluated without splitting paths.
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Not(c bool) bool { return !c }
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Concretize splits the path over the values of x.
func Concretize(x uint64) uint64 { return x }

// Native tells a native run from a symbolic one.
func Native() bool { return true }

// Param picks a bound by tier.
func Param(quick, thorough int) int {
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Known marks the path as one on which the listed finding applies.
func Known(id string, cond bool) {
	if cond {
		known = append(known, id)
	}
}

// Yield lets other goroutines run.
func Yield() { runtime.Gosched() }

// goroutines returns the ids and states of all other goroutines.
func goroutines() map[string]string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := map[string]string{}
	for i, part := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the caller
		}
		line, _, _ := strings.Cut(part, "\n")
		if !strings.HasPrefix(line, "goroutine ") {
			continue
		}
		rest := line[len("goroutine "):]
		id, rest, _ := strings.Cut(rest, " ")
		st := strings.Trim(rest, "[]: ")
		if a, _, ok := strings.Cut(st, ","); ok {
			st = a
		}
		out[id] = st
	}
	return out
}

var perturb int

// D may shorten the duration of a timer in a perturbed build.
func D(d time.Duration) time.Duration {
	if now := time.Now().UnixNano() / 100; perturb > 0 && d > time.Millisecond && (perturb%2 == 0 || now%4 == 0) {
		return time.Duration(now % 300 * 1000)
	}
	return d
}

// P may delay the statement it precedes in a perturbed build: some places always, or
// any place now and then. It shares nothing between goroutines.
func P(site int) {
	if guide != nil {
		guide.wait(site)
		return
	}
	if perturb == 0 {
		return
	}
	mix := func(x uint64) uint64 {
		x ^= x >> 31
		x *= 0x9e3779b97f4a7c15
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		return x ^ x>>32
	}
	stable := mix(uint64(perturb)<<20 + uint64(site))
	now := mix(uint64(time.Now().UnixNano()) + uint64(site)<<32)
	switch perturb % 4 {
	case 0: // some places are slow
		if stable%16 == 0 {
			time.Sleep(time.Duration(100+stable>>8%900) * time.Microsecond)
		}
	case 1: // any place is slow now and then
		if now%16 == 0 {
			time.Sleep(time.Duration(now>>8%300) * time.Microsecond)
		} else if now%4 == 0 {
			runtime.Gosched()
		}
	case 2: // some places are slow half of the time
		if stable%6 == 0 && now%2 == 0 {
			time.Sleep(time.Duration(50+stable>>8%500) * time.Microsecond)
		}
	case 3: // a few long delays
		if now%40 == 0 {
			time.Sleep(2 * time.Millisecond)
		} else if now%2 == 0 {
			runtime.Gosched()
		}
	}
}

// Quiesce waits until every other goroutine is blocked or finished.
func Quiesce() {
	calm := 0
	for i := 0; i < 20000; i++ {
		runtime.Gosched()
		busy := false
		for id, st := range goroutines() {
			if base[id] {
				continue
			}
			switch st {
			case "running", "runnable", "syscall", "sleep", "waiting":
				busy = true
			}
		}
		if busy {
			calm = 0
		} else if calm++; calm >= 3 {
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
}

// Live is the number of goroutines started by the run that have not finished.
func Live() int {
	n := 0
	for id := range goroutines() {
		if !base[id] {
			n++
		}
	}
	return n
}

func report(v any) {
	b, _ := json.Marshal(v)
	fmt.Println("SYM " + string(b))
}

// Main is the native entry point: runner FILE replays every case of the file in order.
func Main(hs map[string]func()) {
	perturb, _ = strconv.Atoi(os.Getenv("VERIF_PERTURB"))
	var cases []Case
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &cases)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	limit := 10 * time.Second
	if len(os.Args) > 2 {
		if ms, err := strconv.Atoi(os.Args[2]); err == nil {
			limit = time.Duration(ms) * time.Millisecond
		}
	}
	for i, c := range cases {
		cur = c
		counts = map[string]int{}
		observed = nil
		known = nil
		asserts = 0
		done, up := make(chan struct{}), make(chan struct{})
		go func() {
			close(up)
			select {
			case <-done:
			case <-time.After(limit):
				report(map[string]any{"hang": i})
				os.Exit(5)
			}
		}()
		<-up
		if f := os.Getenv("VERIF_GUIDE"); f != "" {
			startGuide(f)
		}
		base = map[string]bool{}
		for id := range goroutines() {
			base[id] = true
		}
		hs[c.Harness]()
		close(done)
		mu.Lock()
		report(map[string]any{"case": i, "obs": observed, "asserts": asserts, "known": known})
		mu.Unlock()
	}
	os.Exit(0)
}
