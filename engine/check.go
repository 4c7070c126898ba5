package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is an entry of known-findings.json.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadFindings() []Finding {
	var fs []Finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &fs); err != nil {
			fmt.Println("known-findings.json:", err)
		}
	}
	return fs
}

type hresult struct {
	h         *Harness
	workers   []*WorkerResult
	validated int
	mismatch  []string
}

type confirmed struct {
	h      *Harness
	v      *Violation
	native string
	detail string
	replay string
}

func check(prop, tier string, seed int64, all []*Harness) int {
	t0 := time.Now()
	var hs []*Harness
	for _, h := range all {
		for _, p := range h.Props {
			if p == prop && (tier == "thorough" || !h.Thorough) {
				hs = append(hs, h)
			}
		}
	}
	if len(hs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()

	// native runners are compiled while the workers explore
	type built struct {
		bin string
		err error
	}
	runners := map[string]chan built{}
	startBuild := func(pkg string, race, perturb bool) chan built {
		key := fmt.Sprint(pkg, race, perturb)
		if runners[key] == nil {
			c := make(chan built, 1)
			runners[key] = c
			go func() {
				d, _ := os.MkdirTemp(tmp, "bin")
				var sel []*Harness
				for _, x := range all {
					if x.Pkg == pkg {
						sel = append(sel, x)
					}
				}
				bin, err := buildRunner(d, pkg, sel, race, perturb)
				c <- built{bin, err}
			}()
		}
		return runners[key]
	}
	for _, h := range hs {
		startBuild(h.Pkg, false, false)
	}
	binOf := map[string]built{}
	runner := func(pkg string, race, perturb bool) (string, error) {
		key := fmt.Sprint(pkg, race, perturb)
		if b, ok := binOf[key]; ok {
			return b.bin, b.err
		}
		c := startBuild(pkg, race, perturb)
		b := <-c
		binOf[key] = b
		return b.bin, b.err
	}

	results := make([]*hresult, len(hs))
	var jobs []func()
	cross := "0"
	if tier == "thorough" {
		cross = "1"
	}
	budget := 700 * time.Second // of the 900 s a check may take
	if tier == "thorough" {
		budget = 6 * time.Hour
	}
	for i, h := range hs {
		results[i] = &hresult{h: h}
		shards := max(1, h.Shards)
		if tier == "thorough" && h.TShards > 0 {
			shards = h.TShards
		}
		results[i].workers = make([]*WorkerResult, shards)
		for s := 0; s < shards; s++ {
			jobs = append(jobs, func() {
				out := filepath.Join(tmp, fmt.Sprintf("w%d_%d.json", i, s))
				left := budget - time.Since(t0)
				to := h.Quick
				if tier == "thorough" {
					to = h.Slow
				}
				if to > left {
					to = max(left, time.Second)
				}
				cmd := exec.Command("/usr/bin/timeout", "-s", "KILL", strconv.Itoa(int(to.Seconds())+90), self, "worker", "-harness", h.name(), "-tier", tier,
					"-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(s), "-shards", fmt.Sprint(shards), "-cross", cross, "-out", out)
				cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_TIMEOUT=%d", int(to.Seconds())), "GOMEMLIMIT=3GiB")
				msg, err := cmd.CombinedOutput()
				r := &WorkerResult{Harness: h.name(), Shard: s}
				b, rerr := os.ReadFile(out)
				if rerr == nil {
					json.Unmarshal(b, r)
				} else {
					r.Err = fmt.Sprintf("worker died: %v %s", err, firstLines(string(msg), 20))
				}
				results[i].workers[s] = r
			})
		}
	}
	parallel(ncpu(), jobs)

	findings := loadFindings()
	known := map[string]Finding{}
	for _, f := range findings {
		if f.Status == "known" {
			known[f.ID] = f
		}
	}
	var conf []*confirmed
	var unconf []string
	notes := []string{}
	disagree := 0

	// validation of sampled paths, then replay of counterexamples
	for _, r := range results {
		bin, err := runner(r.h.Pkg, false, false)
		if err != nil {
			notes = append(notes, err.Error())
			for _, w := range r.workers {
				if len(w.Viols) > 0 {
					unconf = append(unconf, fmt.Sprintf("%s: %s", r.h.name(), w.Viols[0].Msg))
				}
			}
			continue
		}
		var samples []*Sample
		for _, w := range r.workers {
			samples = append(samples, w.Samples...)
		}
		if len(samples) > 60 {
			samples = samples[:60]
		}
		var cases []nativeCase
		for _, s := range samples {
			cases = append(cases, nativeCase{r.h.Func, s.Vals, tier})
		}
		if len(cases) > 0 {
			outs, oc, detail := nativeRun(tmp, bin, cases, 10000)
			for i, o := range outs {
				if i >= len(samples) {
					break
				}
				if d := diffObs(samples[i].Obs, o.Obs); d != "" && !r.h.NoObs {
					r.mismatch = append(r.mismatch, d)
				} else {
					r.validated++
				}
			}
			if oc != "ok" && len(outs) < len(samples) {
				// the real code fails on an input the engine found fine
				s := samples[len(outs)]
				cs := []nativeCase{{r.h.Func, s.Vals, tier}}
				n := 0
				var oc2, det2 string
				for k := 0; k < 3; k++ {
					_, oc2, det2 = nativeRun(tmp, bin, cs, 10000*(k+1))
					if oc2 == oc && oc != "assume" {
						n++
					}
				}
				r.mismatch = append(r.mismatch, fmt.Sprintf("native run of a sampled path ended with %s: %s", oc, firstLines(detail, 3)))
				if n == 3 {
					v := &Violation{Kind: "native-" + oc2, Msg: "the real build fails on a solver-generated input: " + firstLines(det2, 6), Vals: s.Vals, Tags: s.Tags}
					conf = append(conf, &confirmed{h: r.h, v: v, native: oc2, detail: det2})
				}
			}
			disagree += len(r.mismatch)
		}
		seen := map[string]bool{}
		var vs []*Violation
		for _, w := range r.workers {
			vs = append(vs, w.Viols...)
		}
		for _, v := range vs {
			key := v.Kind + v.Msg + strings.Join(v.Tags, ",")
			if seen[key] {
				continue
			}
			ok, oc, detail := confirm(tmp, r.h, v, tier, runner)
			if ok {
				seen[key] = true
				conf = append(conf, &confirmed{h: r.h, v: v, native: oc, detail: detail})
			} else {
				unconf = append(unconf, fmt.Sprintf("%s: %s %q (native replay: %s %s)", r.h.name(), v.Kind, v.Msg, oc, firstLines(detail, 2)))
			}
		}
	}

	// write replays and report
	violations := 0
	knownHit := map[string]bool{}
	var lines []string
	for _, c := range conf {
		isKnown := ""
		for _, t := range c.v.Tags {
			if f, ok := known[t]; ok && f.Property == prop {
				isKnown = t
			}
		}
		if isKnown != "" {
			knownHit[isKnown] = true
			continue
		}
		violations++
		dir := filepath.Join(verifDir, "replays", prop)
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, hexRe.ReplaceAllString(c.h.name()+"-"+shortHash(c.v.Kind+c.v.Msg+strings.Join(c.v.Tags, ",")), "_")+".json")
		j, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": c.h.name(), "tier": tier, "kind": c.v.Kind, "message": c.v.Msg, "where": c.v.Where,
			"inputs": c.v.Vals, "schedule": c.v.Trace, "tags": c.v.Tags, "native_outcome": c.native, "native_detail": c.detail,
			"cases": []nativeCase{{c.h.Func, c.v.Vals, tier}}}, "", " ")
		os.WriteFile(p, j, 0o644)
		c.replay = p
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, p))
		fmt.Printf("  %s: %s: %s\n", c.h.name(), c.v.Kind, c.v.Msg)
		if c.v.Where != "" {
			fmt.Printf("    at %s\n", c.v.Where)
		}
	}
	for _, f := range findings {
		if f.Status == "known" && f.Property == prop {
			if knownHit[f.ID] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
			} else {
				fmt.Printf("note: known finding %s was not reproduced by this run\n", f.ID)
			}
		}
	}

	// evidence
	writeEvidence(prop, tier, seed, results, conf, unconf, notes, violations, disagree, time.Since(t0))

	// summary
	for _, r := range results {
		for _, w := range r.workers {
			extra := ""
			if w.Err != "" {
				extra = " ERROR " + firstLines(w.Err, 5)
			}
			if len(w.Limits) > 0 {
				extra += fmt.Sprintf(" limits=%v", w.Limits)
			}
			if len(w.Unsup) > 0 {
				extra += fmt.Sprintf(" unsupported=%v", w.Unsup)
			}
			fmt.Printf("%s[%d]: paths=%d steps=%d queries=%d (%.1fs) asserts=%d covers=%d validated=%d wall=%.1fs%s\n", w.Harness, w.Shard, w.Paths, w.Steps, w.Queries, w.SolverS, w.Asserts, len(w.Covers), r.validated, w.WallS, extra)
		}
		for _, m := range r.mismatch {
			fmt.Printf("  engine/native disagreement in %s: %s\n", r.h.name(), m)
		}
	}
	for _, u := range unconf {
		fmt.Println("  unconfirmed (not reported):", u)
	}
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	explored := 0
	for _, r := range results {
		for _, w := range r.workers {
			explored += w.Paths
		}
	}
	if explored == 0 {
		fmt.Println("nothing was explored: no verdict")
		return 2
	}
	return 0
}

func diffObs(a, b []ObsVal) string {
	if len(a) != len(b) {
		return fmt.Sprintf("engine observed %d values, native %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("observation %d: engine %v, native %v", i, a[i], b[i])
		}
	}
	return ""
}

// confirm replays a counterexample against the real build.
func confirm(tmp string, h *Harness, v *Violation, tier string, runner func(string, bool, bool) (string, error)) (bool, string, string) {
	bin, err := runner(h.Pkg, v.Kind == "race", h.Full)
	if err != nil {
		return false, "no runner", err.Error()
	}
	attempts := 1
	if v.Nondet {
		attempts = 60
	}
	if h.Full {
		attempts = 300
	}
	if v.Kind == "race" {
		attempts = 100
	}
	cs := []nativeCase{{h.Func, v.Vals, tier}}
	limit := 6000
	deadline := time.Now().Add(60 * time.Second)
	var oc, detail string
	guide := ""
	if h.Full && v.Kind != "race" && len(v.Sites) > 0 && len(v.Sites) < 50000 {
		if f, err := os.CreateTemp(tmp, "guide*.json"); err == nil {
			b, _ := json.Marshal(v.Sites)
			f.Write(b)
			f.Close()
			guide = f.Name()
			defer os.Remove(guide)
		}
	}
	for i := 0; i < attempts && time.Now().Before(deadline); i++ {
		env := []string{}
		if h.Full {
			env = append(env, fmt.Sprintf("VERIF_PERTURB=%d", i))
			if i%3 == 1 {
				env = append(env, "GOMAXPROCS=1")
			} else if i%3 == 2 {
				env = append(env, "GOMAXPROCS=2")
			}
			// first in the order of the schedule that was found, and again now and then
			if guide != "" && (i < 20 || i%5 == 0) {
				env = append(env, "VERIF_GUIDE="+guide)
			}
		}
		_, oc, detail = nativeRun(tmp, bin, cs, limit, env...)
		switch v.Kind {
		case "assert":
			if oc == "fail" {
				return true, oc, detail
			}
			if oc == "panic" || oc == "hang" {
				return true, oc, detail
			}
		case "panic":
			if oc == "panic" || oc == "fail" {
				return true, oc, detail
			}
		case "deadlock", "hang":
			if oc == "hang" || oc == "fail" || oc == "panic" {
				return true, oc, detail
			}
		case "race":
			if oc == "race" || oc == "fail" || oc == "panic" {
				return true, oc, detail
			}
		}
	}
	return false, oc, detail
}

func writeEvidence(prop, tier string, seed int64, results []*hresult, conf []*confirmed, unconf, notes []string, violations, disagree int, wall time.Duration) {
	states, trans, valid := 0, 0, 0
	queries, sat, unsat, unk, crossQ, asserts, assertQ := 0, 0, 0, 0, 0, 0, 0
	solver := 0.0
	maxQ := 0.0
	funcs, unreached := map[string]bool{}, map[string][]string{}
	harn := []any{}
	samples := []any{}
	assumes := map[string]bool{}
	limits := map[string]int{}
	uns := map[string]int{}
	complete := true
	for _, r := range results {
		hq := map[string]any{"harness": r.h.name(), "what": strings.TrimSpace(r.h.Doc), "bounds": r.h.Bounds}
		if r.h.Full {
			hq["schedules"] = "every interleaving at synchronisation operations (sleep-set reduced)"
		}
		p, pok, st, q, as, tr, sp := 0, 0, int64(0), 0, 0, 0, 0
		ss := 0.0
		cov := map[string]bool{}
		hl := map[string]int{}
		hu := map[string]int{}
		errs := []string{}
		for _, w := range r.workers {
			p += w.Paths
			pok += w.PathsOK
			st += w.Steps
			q += w.Queries
			as += w.Asserts
			tr += w.Transitions
			sp += w.SchedPts
			ss += w.SolverS
			states += w.Paths + w.SchedPts
			trans += int(w.Steps)
			queries += w.Queries
			sat += w.Sat
			unsat += w.Unsat
			unk += w.Unknown
			crossQ += w.CrossQ
			asserts += w.Asserts
			assertQ += w.AssertQ
			solver += w.SolverS
			maxQ = max(maxQ, w.MaxQueryS)
			for _, c := range w.Covers {
				cov[c] = true
			}
			for k, v := range w.Limits {
				hl[k] += v
				limits[k] += v
			}
			for k, v := range w.Unsup {
				hu[k] += v
				uns[k] += v
			}
			for f, l := range w.Unreached {
				if old, ok := unreached[f]; ok {
					l = intersect(old, l)
				}
				unreached[f] = l
			}
			for _, f := range w.Funcs {
				if strings.Contains(f, modPath) && !strings.Contains(f, "zzverif") {
					funcs[f] = true
				}
			}
			if w.Err != "" {
				errs = append(errs, firstLines(w.Err, 10))
			}
			for _, cb := range w.CrossBad {
				errs = append(errs, "solver disagreement: "+cb)
			}
			for i, s := range w.Samples {
				if i < 2 && len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": r.h.name(), "inputs": trimVals(s.Vals), "observed": trimObs(s.Obs)})
				}
			}
		}
		valid += r.validated
		hq["paths"] = p
		hq["paths_completed"] = pok
		hq["instructions"] = st
		hq["queries"] = q
		hq["assertions_checked"] = as
		hq["solver_s"] = round(ss)
		hq["reachability_witnesses"] = sortedKeys(cov)
		hq["paths_validated_natively"] = r.validated
		if r.h.Full {
			hq["scheduling_points"] = sp
			hq["transitions"] = tr
		}
		if len(hl) > 0 {
			hq["reduced_bounds"] = hl
			complete = false
		}
		if len(hu) > 0 {
			hq["unsupported"] = hu
			complete = false
		}
		if len(errs) > 0 {
			hq["errors"] = errs
			complete = false
		}
		if len(r.mismatch) > 0 {
			hq["engine_native_disagreements"] = r.mismatch
		}
		for _, a := range r.h.Assumes {
			assumes[a] = true
		}
		harn = append(harn, hq)
	}
	for _, c := range conf {
		samples = append(samples, map[string]any{"harness": c.h.name(), "violation": c.v.Msg, "replay": c.replay, "tags": c.v.Tags})
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	as := sortedKeys(assumes)
	as = append(as, "the engine's model of the Go semantics, of sync, sync/atomic, reflect, fmt and crypto/rand (DESIGN.md) and z3's verdicts are trusted; sampled paths are re-run on the real build")
	left := map[string][]string{}
	for f, l := range unreached {
		if len(l) > 0 {
			left[f] = l
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall.Seconds()), "violations": violations,
		"assumptions": as,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"states_meaning":              "symbolic paths plus scheduling points explored; transitions are symbolically executed SSA instructions",
			"functions_encoded":           sortedKeys(funcs),
			"blocks_not_reached":          left,
			"harnesses":                   harn,
			"queries":                     queries,
			"queries_sat":                 sat,
			"queries_unsat":               unsat,
			"queries_unknown":             unk,
			"assertions_checked":          asserts,
			"assertions_needing_a_query":  assertQ,
			"solver":                      "z3 4.8.12 (QF_BV, incremental)",
			"solver_s":                    round(solver),
			"longest_query_s":             round(maxQ),
			"cross_checked_with_cvc5":     crossQ,
			"bounds_completed":            complete,
			"reduced_bounds":              limits,
			"unsupported":                 uns,
			"unconfirmed":                 unconf,
			"notes":                       notes,
			"engine_native_disagreements": disagree,
			"exhaustive":                  false,
		},
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func trimVals(m map[string]uint64) map[string]uint64 {
	ks := sortedKeys(m)
	sort.Strings(ks)
	out := map[string]uint64{}
	for i, k := range ks {
		if i >= 24 {
			break
		}
		out[k] = m[k]
	}
	return out
}

func trimObs(o []ObsVal) []ObsVal {
	if len(o) > 12 {
		o = o[:12]
	}
	out := append([]ObsVal{}, o...)
	for i := range out {
		if len(out[i].Val) > 64 {
			out[i].Val = out[i].Val[:64] + "..."
		}
	}
	return out
}

func intersect(a, b []string) []string {
	out := []string{}
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
				break
			}
		}
	}
	return out
}
