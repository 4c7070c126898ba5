package sym

import (
	"encoding/json"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// guided makes a native run begin its statements in the order of a schedule, as far as it
// can: each goroutine waits for its turn, and gives up the order when it does not come.
type guided struct {
	mu    sync.Mutex
	cond  *sync.Cond
	seq   [][2]int       // goroutine and statement, in order
	at    int            // the next one
	of    map[int][]int  // the places in seq of each goroutine
	pos   map[int]int    // how many of those are done
	gs    map[string]int // native to recorded goroutine
	taken map[int]bool   // recorded goroutines that are known
	last  int            // the goroutine that moved last
	moves int            // counts moves, for the watcher
	skips int
	off   bool
	pause time.Duration
	any   bool // take any of several goroutines that fit
}

var guide *guided

func startGuide(file string) {
	b, err := os.ReadFile(file)
	g := &guided{of: map[int][]int{}, pos: map[int]int{}, gs: map[string]int{}, taken: map[int]bool{}}
	if err != nil || json.Unmarshal(b, &g.seq) != nil {
		return
	}
	g.cond = sync.NewCond(&g.mu)
	for i, e := range g.seq {
		g.of[e[0]] = append(g.of[e[0]], i)
	}
	g.pause = []time.Duration{100, 300, 1000}[perturb/3%3] * time.Microsecond
	g.any = perturb > 8
	guide = g
	up := make(chan struct{})
	go func() {
		close(up)
		seen, calm := 0, 0
		for {
			time.Sleep(2 * time.Millisecond)
			g.mu.Lock()
			if g.moves != seen {
				seen, calm = g.moves, 0
			} else if calm++; calm >= 5 && !g.off {
				// whoever is next does not come
				calm = 0
				if g.skips++; g.skips > 40 || g.at >= len(g.seq) {
					g.off = true
				} else {
					g.at++
				}
				g.cond.Broadcast()
			}
			g.mu.Unlock()
		}
	}()
	<-up
}

func self() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	id, _, _ := strings.Cut(s, " ")
	return id
}

func (g *guided) wait(site int) {
	id := self()
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.off {
		return
	}
	me, ok := g.gs[id]
	if !ok {
		me = -1
		for c, places := range g.of {
			if g.taken[c] || g.seq[places[0]][1] != site || len(g.gs) == 0 && c != 0 {
				continue
			}
			if me < 0 || places[0] < g.of[me][0] && !g.any || g.any && rand.Intn(2) == 0 {
				me = c
			}
		}
		g.gs[id] = me
		if me >= 0 {
			g.taken[me] = true
		}
	}
	if me < 0 {
		return // not in the schedule
	}
	// a statement that is not the next of this goroutine was left out on the way, or is new
	k := g.pos[me]
	for k < len(g.of[me]) && g.seq[g.of[me][k]][1] != site {
		k++
	}
	if k == len(g.of[me]) {
		return
	}
	g.pos[me] = k + 1
	turn := g.of[me][k]
	for g.at < turn && !g.off {
		g.cond.Wait()
	}
	if g.off || g.at > turn {
		return
	}
	if g.last != me {
		// let the other one get as far as it goes
		g.last = me
		g.mu.Unlock()
		time.Sleep(g.pause)
		g.mu.Lock()
	}
	g.at = max(g.at, turn+1)
	g.moves++
	g.cond.Broadcast()
}
