package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// explore runs the harness function over all paths within the limits.
func (e *Engine) explore(fn *ssa.Function, cfg Config, seed int64) {
	e.reset()
	e.cfg = cfg
	if e.cfg.MaxSteps == 0 {
		e.cfg.MaxSteps = 4_000_000
	}
	if e.cfg.MaxPaths == 0 {
		e.cfg.MaxPaths = 2_000_000
	}
	e.deadline = time.Now().Add(cfg.Timeout)
	rng := rand.New(rand.NewSource(seed))
	st := e.newState()
	st.gs = []*G{{id: 0}}
	if cfg.Race {
		st.gs[0].vc.tick(0)
	}
	st.pushFrame(st.gs[0], fn, nil, nil, true)
	e.work = []*State{st}
	seen := 0
	for len(e.work) > 0 {
		if e.paths%512 == 511 && tooBig() {
			e.limits["memory"]++
			e.stopped = true
			break
		}
		if time.Now().After(e.deadline) || e.paths >= e.cfg.MaxPaths {
			e.stopped = true
			break
		}
		s := e.work[len(e.work)-1]
		e.work[len(e.work)-1] = nil
		e.work = e.work[:len(e.work)-1]
		end := e.runPath(s)
		e.paths++
		if len(s.trace) > e.maxDepth {
			e.maxDepth = len(s.trace)
		}
		switch end {
		case "":
			e.pathsOK++
			newCover := false
			for _, c := range s.covers {
				if !e.covers[c] {
					newCover = true
				}
				e.covers[c] = true
			}
			// reservoir sample of completed paths, always keeping first witnesses of cover points
			seen++
			if newCover && len(e.samples) < 40 {
				e.samples = append(e.samples, s.sample())
			} else if len(e.samples) < 12 {
				e.samples = append(e.samples, s.sample())
			} else if k := rng.Intn(seen); k < len(e.samples) && k >= len(e.covers) {
				e.samples[k] = s.sample()
			}
		case "assume":
			e.pathsAssume++
		}
	}
	e.limitsFinal()
}

func (e *Engine) limitsFinal() {
	if e.stopped {
		e.limits["time or path budget"]++
	}
}

func (s *State) sample() *Sample {
	sm := &Sample{Vals: map[string]uint64{}, Tags: s.tags}
	for _, v := range s.vars {
		if x := s.model.eval(v); x != 0 {
			sm.Vals[v.name] = x
		}
	}
	for _, o := range s.obs {
		sm.Obs = append(sm.Obs, ObsVal{o.name, o.eval(s.model)})
	}
	return sm
}

func (o Obs) eval(m *Model) string {
	if o.isBs {
		b := make([]byte, len(o.bs))
		for i, t := range o.bs {
			b[i] = byte(m.eval(t))
		}
		return hex.EncodeToString(b)
	}
	return fmt.Sprint(m.eval(o.val))
}

func (e *Engine) runPath(s *State) (end string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x.reason
			case unsupErr:
				e.unsups[x.msg+" at "+s.where()]++
				end = "unsupported"
			default:
				if dbg {
					fmt.Println("ENGINE PANIC at", s.where())
				}
				if _, ok := r.(fatalErr); ok || dbg {
					panic(r)
				}
				// a construct the engine does not know, met where it did not expect one
				e.unsups[fmt.Sprint("engine error: ", r, " at ", s.where())]++
				end = "unsupported"
			}
		}
	}()
	s.run()
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
