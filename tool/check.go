package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type tierParams struct {
	runs int
	secs float64
}

func tierOf(prop, tier string) tierParams {
	if tier == "thorough" {
		return tierParams{2_000_000, 780}
	}
	return tierParams{40_000, 50}
}

type finding struct {
	Prop, Sig, What string
}

// knownFindings reads /verif/known_findings.txt: lines
//
//	known: property=<id> sig=<signature> <what fails>
//	fixed: property=<id> <commit> <what failed>      (suppresses nothing)
func knownFindings() []finding {
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := finding{}
		rest := []string{}
		for _, w := range strings.Fields(strings.TrimPrefix(l, "known:")) {
			switch {
			case strings.HasPrefix(w, "property=") && f.Prop == "":
				f.Prop = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "sig=") && f.Sig == "":
				f.Sig = strings.TrimPrefix(w, "sig=")
			default:
				rest = append(rest, w)
			}
		}
		f.What = strings.Join(rest, " ")
		fs = append(fs, f)
	}
	return fs
}

type agg struct {
	mu        sync.Mutex
	runs      int
	nontriv   int
	hashes    map[uint64]bool
	shapes    map[string]int
	scens     map[string]int
	counters  map[string]uint64
	faults    map[string]int
	steps     uint64
	picks     uint64
	preempts  uint64
	stalls    uint64
	lates     uint64
	simNs     float64
	maxReady  uint64
	maxSteps  uint64
	sites     []byte
	infra     []string
	viol      *result
	violJob   job
	known     map[string]int
	rechecked int
	nondet    []string
	unrepro   []string
	samples   []map[string]any
	sigs      map[string]int
	sigEx     map[string]job
	sigMsg    map[string]string
}

func (a *agg) add(j job, r *result, kf []finding, prop string) (stop bool) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if r.Infra != "" {
		a.infra = append(a.infra, fmt.Sprintf("seed %d: %s", j.Seed, r.Infra))
		return len(a.infra) > 50
	}
	a.runs++
	if !a.hashes[r.Hash] {
		a.hashes[r.Hash] = true
		if r.Picks > 10 && (r.Preempts > 0 || r.MaxReady > 1) && r.Ops > 0 {
			a.nontriv++
		}
	}
	a.shapes[r.Shape]++
	a.scens[r.Scen]++
	for k, v := range r.Counters {
		a.counters[k] += v
	}
	for _, f := range r.Faults {
		a.faults[f]++
	}
	a.steps += r.Steps
	a.picks += r.Picks
	a.preempts += r.Preempts
	a.stalls += r.Stalls
	a.lates += r.Lates
	a.simNs += float64(r.SimNs)
	if r.MaxReady > a.maxReady {
		a.maxReady = r.MaxReady
	}
	if r.Steps > a.maxSteps {
		a.maxSteps = r.Steps
	}
	for i, b := range r.Sites {
		a.sites[i] |= b
	}
	if len(a.samples) < 4 && a.runs%7 == 1 {
		a.samples = append(a.samples, map[string]any{"scenario": r.Scen, "seed": j.Seed, "shape": r.Shape, "ops": r.Ops, "faults": r.Faults,
			"steps": r.Steps, "context_switches": r.Picks, "interleaving_hash": fmt.Sprintf("%016x", r.Hash), "sim_seconds": float64(r.SimNs) / 1e9})
	}
	for _, v := range r.Violations {
		if v.Prop != prop {
			continue
		}
		isKnown := false
		for _, k := range kf {
			if k.Prop == prop && k.Sig == v.Sig {
				a.known[k.Sig]++
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		if a.sigs[v.Sig] == 0 {
			a.sigEx[v.Sig] = j
			a.sigMsg[v.Sig] = r.Scen + ": " + v.Msg
		}
		a.sigs[v.Sig]++
		if a.viol == nil {
			rr := *r
			rr.Violations = []violation{v}
			a.viol = &rr
			a.violJob = j
			stop = true
		}
	}
	return stop
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return (z ^ (z >> 31)) >> 1
}

func check(prop, tier string, seed uint64, n int, secs float64, scen string, workers int, keep bool, start time.Time) int {
	tp := tierOf(prop, tier)
	if n == 0 {
		n = tp.runs
	}
	if secs == 0 {
		secs = tp.secs
	}
	kf := knownFindings()
	a := &agg{hashes: map[uint64]bool{}, shapes: map[string]int{}, scens: map[string]int{}, counters: map[string]uint64{}, faults: map[string]int{},
		sites: make([]byte, siteLen), known: map[string]int{}, sigs: map[string]int{}, sigEx: map[string]job{}, sigMsg: map[string]string{}}
	buildS := time.Since(start).Seconds()
	t0 := time.Now()
	deadline := t0.Add(time.Duration(secs * float64(time.Second)))
	var next int
	var mu sync.Mutex
	stop := false
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(i)
			defer w.close()
			for {
				mu.Lock()
				k := next
				next++
				s := stop || k >= n || time.Now().After(deadline)
				mu.Unlock()
				if s {
					return
				}
				sd := mix(seed, uint64(k))
				j := job{Prop: prop, Seed: sd, SSeed: sd, Scen: scen}
				r := w.run(j)
				if r.Infra != "" { // a run the machine, not the code, got in the way of: once more
					r = w.run(j)
				}
				if n := len(r.Violations); n > 0 && r.Infra == "" {
					// only what happens again on the same seed is a finding
					r2 := w.run(j)
					var kept []violation
					for _, v := range r.Violations {
						if same(r2, v.Sig, v.Prop) {
							kept = append(kept, v)
						}
					}
					if len(kept) < n {
						a.mu.Lock()
						a.unrepro = append(a.unrepro, fmt.Sprintf("seed %d: %v", sd, r.Violations))
						a.mu.Unlock()
					}
					r.Violations = kept
				}
				// one run in 97 is repeated and must come out identical
				if k%97 == 5 && r.Infra == "" {
					r2 := w.run(j)
					a.mu.Lock()
					a.rechecked++
					if r2.Hash != r.Hash || r2.Steps != r.Steps || r2.EndNow != r.EndNow {
						a.nondet = append(a.nondet, fmt.Sprintf("seed %d: %016x/%d vs %016x/%d", sd, r.Hash, r.Steps, r2.Hash, r2.Steps))
					}
					a.mu.Unlock()
				}
				if a.add(j, r, kf, prop) && !keep {
					mu.Lock()
					stop = true
					mu.Unlock()
				}
			}
		}(i)
	}
	wg.Wait()
	searchS := time.Since(t0).Seconds()
	for _, k := range kf {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	if keep {
		var ks []string
		for k := range a.sigs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("%6d %s seed=%d %s\n", a.sigs[k], k, a.sigEx[k].Seed, a.sigMsg[k])
		}
	}
	code := 0
	replayPath := ""
	if a.viol != nil && !keep {
		w := newWorker(0)
		replayPath, code = minimise(w, prop, a.violJob, a.viol)
		w.close()
		if code == 1 {
			v := a.viol.Violations[0]
			fmt.Printf("violation of %s in scenario %s, seed %d: [%s] %s\n", prop, a.viol.Scen, a.violJob.Seed, v.Sig, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		}
	}
	if len(a.infra) > 0 {
		for _, s := range a.infra {
			fmt.Fprintln(os.Stderr, "infra:", s)
		}
		if code == 0 && len(a.infra) > 2+a.runs/50 {
			code = 3
		}
	}
	for _, s := range a.unrepro {
		fmt.Fprintln(os.Stderr, "not reproduced, not counted:", s)
	}
	for _, s := range a.nondet {
		fmt.Fprintln(os.Stderr, "nondeterminism:", s)
	}
	if code == 0 && len(a.nondet) > 2+a.rechecked/20 {
		code = 3
	}
	if a.runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "no run completed")
		code = 3
	}
	writeEvidence(prop, tier, seed, a, buildS, searchS, time.Since(start).Seconds(), code)
	fmt.Printf("%s %s: %d runs in %.1fs (build %.1fs), %d distinct interleavings, %.1f h simulated, max %d steps, exit %d\n", prop, tier, a.runs, searchS, buildS, len(a.hashes), a.simNs/3.6e12, a.maxSteps, code)
	return code
}

func popcount(b []byte) int {
	n := 0
	for _, x := range b {
		for ; x != 0; x &= x - 1 {
			n++
		}
	}
	return n
}

func writeEvidence(prop, tier string, seed uint64, a *agg, buildS, searchS, wall float64, code int) {
	injected := map[string]uint64{}
	cov := map[string]uint64{}
	for k, v := range a.counters {
		if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "net.") {
			if v > 0 {
				injected[strings.TrimPrefix(k, "fault.")] = v
			}
		} else {
			cov[k] = v
		}
	}
	injected["sched.preemptions"] = a.preempts
	injected["sched.goroutine_freezes"] = a.stalls
	injected["sched.late_timers"] = a.lates
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(a.runs) / searchS * 3600
	}
	var sites []string
	total := 0
	if data, err := os.ReadFile(filepath.Join(buildDir, "sites.json")); err == nil {
		json.Unmarshal(data, &sites)
		total = len(sites)
	}
	info := info(prop)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall,
		"coverage": map[string]any{
			"evaluations":         a.runs,
			"distinct_nontrivial": a.nontriv,
			"rule": "one evaluation is one complete simulated run of the real code in its own process, generated from one seed (workload, network weather, faults, schedule). " +
				"It counts as distinct and non-trivial when its interleaving hash (the sequence of goroutine choices with the yield-point count at each) was not seen before, " +
				"more than ten context switches happened, at least two goroutines were ready together or one was preempted, and at least one workload operation ran. " + info.rule,
			"samples":                     a.samples,
			"runs_per_hour":               int64(perHour),
			"seeds_per_hour":              int64(perHour),
			"simulated_seconds":           a.simNs / 1e9,
			"scheduling_steps":            a.steps,
			"context_switches":            a.picks,
			"distinct_interleavings":      len(a.hashes),
			"workload_shapes":             len(a.shapes),
			"scenarios":                   a.scens,
			"faults_injected":             injected,
			"runs_with_fault_class":       a.faults,
			"checked":                     cov,
			"yield_sites_reached":         popcount(a.sites),
			"yield_sites_total":           total,
			"max_ready_goroutines":        a.maxReady,
			"runs_repeated_and_identical": a.rechecked - len(a.nondet),
			"runs_repeated_and_different": len(a.nondet),
			"unreproduced_alarms_dropped": len(a.unrepro),
			"runs_lost_to_the_machine":    len(a.infra),
			"real_code":                   info.real,
			"stubbed":                     info.stub,
			"known_findings_seen":         a.known,
		},
		"assumptions": info.assume,
		"violations":  len(a.sigs),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(j, '\n'), 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}

type replayFile struct {
	Job       job       `json:"run"`
	Violation violation `json:"violation"`
	Scenario  string    `json:"scenario"`
	Hash      string    `json:"interleaving_hash"`
	Steps     uint64    `json:"steps"`
	Note      string    `json:"note"`
	Faults    []string  `json:"faults_active"`
	Counters  any       `json:"counters"`
	Trace     []string  `json:"trace"`
	Stderr    string    `json:"stderr,omitempty"`
}

func same(r *result, sig string, prop string) bool {
	if r.Infra != "" {
		return false
	}
	for _, v := range r.Violations {
		if v.Prop == prop && v.Sig == sig {
			return true
		}
	}
	return false
}

// minimise reproduces the violation, shrinks workload, faults and schedule, and
// writes the replay file.  It returns 1, or 3 if the run does not reproduce.
func minimise(w *worker, prop string, j job, r *result) (string, int) {
	sig := r.Violations[0].Sig
	limit := time.Now().Add(60 * time.Second)
	r0 := w.run(j)
	for k := 0; k < 3 && !same(r0, sig, prop); k++ {
		r0 = w.run(j)
	}
	if !same(r0, sig, prop) {
		fmt.Fprintf(os.Stderr, "seed %d does not reproduce [%s]: %s", j.Seed, sig, r0.pretty())
		return "", 3
	}
	best, bestR := j, r0
	best.Scen = r.Scen
	if rr := w.run(best); !same(rr, sig, prop) {
		best.Scen = j.Scen
	}
	try := func(c job) bool {
		if time.Now().After(limit) {
			return false
		}
		for k := uint64(0); k < 6; k++ {
			if k > 0 {
				c.SSeed = mix(j.SSeed, 1000+k)
			}
			if rr := w.run(c); same(rr, sig, prop) {
				best, bestR = c, rr
				return true
			}
		}
		return false
	}
	// 1. fault classes
	for _, f := range append([]string(nil), bestR.Faults...) {
		c := best
		c.NoFault = append(append([]string(nil), best.NoFault...), f)
		try(c)
	}
	// 2. operations, in halving chunks
	for size := (bestR.Ops + 1) / 2; size >= 1; size /= 2 {
		for lo := 0; lo < r0.Ops && time.Now().Before(limit); lo += size {
			dropped := map[int]bool{}
			for _, d := range best.Drop {
				dropped[d] = true
			}
			nd := append([]int(nil), best.Drop...)
			for k := lo; k < lo+size && k < r0.Ops; k++ {
				if !dropped[k] {
					nd = append(nd, k)
				}
			}
			if len(nd) == len(best.Drop) {
				continue
			}
			c := best
			sort.Ints(nd)
			c.Drop = nd
			try(c)
		}
	}
	// 3. schedule: make it explicit, then drop decisions
	fixed := best
	fixed.Fixed, fixed.Sched = true, bestR.Sched
	rr := w.run(fixed)
	note := "schedule given by its seed (explicit form did not reproduce)"
	if same(rr, sig, prop) {
		note = "explicit minimised schedule"
		cur := fixed
		limit = time.Now().Add(45 * time.Second)
		chunk := (len(cur.Sched) + 1) / 2
		for chunk >= 1 && time.Now().Before(limit) && len(cur.Sched) > 0 {
			removed := false
			for lo := 0; lo < len(cur.Sched) && time.Now().Before(limit); {
				hi := lo + chunk
				if hi > len(cur.Sched) {
					hi = len(cur.Sched)
				}
				c := cur
				c.Sched = append(append([][3]int64(nil), cur.Sched[:lo]...), cur.Sched[hi:]...)
				if r2 := w.run(c); same(r2, sig, prop) {
					cur = c
					removed = true
				} else {
					lo = hi
				}
			}
			if !removed || chunk > len(cur.Sched) {
				chunk /= 2
			}
		}
		best = cur
	}
	best.Verbose = true
	fin := w.run(best)
	if !same(fin, sig, prop) {
		best = j
		best.Verbose = true
		fin = w.run(best)
		note = "not minimised"
	}
	rf := replayFile{Job: best, Scenario: fin.Scen, Hash: fmt.Sprintf("%016x", fin.Hash), Steps: fin.Steps, Note: note, Faults: fin.Faults, Counters: fin.Counters, Trace: fin.Trace, Stderr: fin.Stderr}
	for _, v := range fin.Violations {
		if v.Prop == prop && v.Sig == sig {
			rf.Violation = v
		}
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, j.Seed))
	data, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, append(data, '\n'), 0o644)
	kept := fin.Ops
	for _, d := range best.Drop {
		if int(d) < fin.Ops {
			kept--
		}
	}
	fmt.Printf("minimised: %d of %d operations, faults %v, %d schedule decisions (from %d)\n", kept, max(fin.Ops, r0.Ops), fin.Faults, len(best.Sched), len(r0.Sched))
	return path, 1
}

func replay(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fatalf("%v", err)
	}
	rf.Job.Verbose = true
	w := newWorker(0)
	defer w.close()
	r := w.run(rf.Job)
	fmt.Print(r.pretty())
	if same(r, rf.Violation.Sig, rf.Job.Prop) {
		if fmt.Sprintf("%016x", r.Hash) == rf.Hash {
			fmt.Println("reproduced exactly")
		} else {
			fmt.Println("reproduced, with a different interleaving (the code differs from the recorded tree)")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Job.Prop, path)
		return 1
	}
	fmt.Println("not reproduced on this tree")
	return 0
}

// determinism runs every seed twice, with different parallelism around it, and
// compares; and once more from its own decision log.
func determinism(prop string, seed uint64, n, workers int, scen string) int {
	if n == 0 {
		n = 200
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad, next, logbad := 0, 0, 0
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(i)
			defer w.close()
			for {
				mu.Lock()
				k := next
				next++
				mu.Unlock()
				if k >= n {
					return
				}
				sd := mix(seed, uint64(k))
				j := job{Prop: prop, Seed: sd, SSeed: sd, Scen: scen}
				a := w.run(j)
				b := w.run(j)
				jf := j
				jf.Fixed, jf.Sched = true, a.Sched
				c := w.run(jf)
				mu.Lock()
				if a.Hash != b.Hash || a.Steps != b.Steps || a.EndNow != b.EndNow {
					bad++
					fmt.Printf("seed %d (%s): %016x/%d/%d %016x/%d/%d\n", sd, a.Scen, a.Hash, a.Steps, a.EndNow, b.Hash, b.Steps, b.EndNow)
				}
				if a.Hash != c.Hash || a.Steps != c.Steps || a.EndNow != c.EndNow {
					logbad++
					for i := range a.Sched {
						if i >= len(c.Sched) || a.Sched[i] != c.Sched[i] {
							fmt.Printf("  decision %d of %d: %v", i, len(a.Sched), a.Sched[i])
							if i < len(c.Sched) {
								fmt.Printf(" / %v", c.Sched[i])
							}
							fmt.Println()
							break
						}
					}
					fmt.Printf("seed %d (%s): by seed %016x/%d/%d, by decision log %016x/%d/%d\n", sd, a.Scen, a.Hash, a.Steps, a.EndNow, c.Hash, c.Steps, c.EndNow)
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	fmt.Printf("%s: %d seeds, %d differed on repetition, %d differed when replayed from the decision log\n", prop, n, bad, logbad)
	if bad+logbad > 0 {
		return 1
	}
	return 0
}
