package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// The coordinator of a check: it hands ranges of cases to processes until
// the time or the cases run out, confirms and shrinks a violation, and
// writes the evidence.

type variant struct {
	name   string
	weight int
	batch  int // cases per process
	race   bool
	max    int // cases in a quick check, 0: until the time is over
}

type checkOpts struct {
	prop, tier string
	seed       uint64
	secs       int
	shrinkSecs int
	evidence   string
	known      string
	replays    string
	raceBin    string
	stats      string // of the instrumenter
}

type batchResult struct {
	v       variant
	from    int
	to      int
	viol    *Violation
	c       *Case
	at      int
	hashes  map[int]uint64
	dur     time.Duration
	crashed string
	toolErr string
	killed  bool
}

type coordinator struct {
	o      checkOpts
	self   string
	vars   []variant
	spent  []time.Duration
	next   []int
	mu     sync.Mutex
	stats  *Stats
	runs   int
	found  *batchResult
	procs  map[*exec.Cmd]bool
	stop   bool
	first  map[string]*batchResult // first batches, for the determinism check
	errors []string
}

func (k *coordinator) bin(race bool) string {
	if race {
		return k.o.raceBin
	}
	return k.self
}

// take returns the next range of cases
func (k *coordinator) take() (int, int, int) {
	best := -1
	for i, v := range k.vars {
		if v.max > 0 && k.next[i] >= v.max {
			continue
		}
		if best < 0 || k.spent[i]*time.Duration(k.vars[best].weight) < k.spent[best]*time.Duration(v.weight) {
			best = i
		}
	}
	if best < 0 {
		return -1, 0, 0
	}
	v := k.vars[best]
	from := k.next[best]
	to := from + v.batch
	if v.max > 0 && to > v.max {
		to = v.max
	}
	k.next[best] = to
	// until the real time is known
	k.spent[best] += time.Duration(v.batch) * 100 * time.Millisecond
	return best, from, to
}

func (k *coordinator) batch(v variant, from, to int, deadline time.Time) *batchResult {
	res := &batchResult{v: v, from: from, to: to, at: from, hashes: map[int]uint64{}}
	cmd := exec.Command(k.bin(v.race), "batch", "-prop", k.o.prop, "-variant", v.name, "-seed", fmt.Sprint(k.o.seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to))
	cmd.Env = childEnv()
	var errb limitedBuffer
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		res.toolErr = err.Error()
		return res
	}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		res.toolErr = err.Error()
		return res
	}
	k.mu.Lock()
	k.procs[cmd] = true
	k.mu.Unlock()
	// a single case that takes this long hangs
	hung := false
	watchdog := time.AfterFunc(120*time.Second, func() { hung = true; cmd.Process.Kill() })
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	done := false
	for sc.Scan() {
		var m batchMsg
		if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
			res.toolErr = fmt.Sprintf("unexpected output: %.300s", sc.Text())
			continue
		}
		watchdog.Reset(120 * time.Second)
		switch {
		case m.Stats != nil:
			done = true
			k.mu.Lock()
			k.stats.merge(*m.Stats)
			k.mu.Unlock()
		case m.Viol != nil:
			res.viol, res.c, res.at = m.Viol, m.Case, *m.At
		case m.Hash != 0:
			res.hashes[*m.At] = m.Hash
			k.mu.Lock()
			k.runs++
			k.mu.Unlock()
		case m.At != nil:
			res.at = *m.At
		}
	}
	werr := cmd.Wait()
	watchdog.Stop()
	res.dur = time.Since(t0)
	k.mu.Lock()
	delete(k.procs, cmd)
	stopped := k.stop
	k.mu.Unlock()
	if done || stopped {
		res.killed = !done
		if res.viol != nil && v.race {
			res.viol.Detail += raceReport(errb.String())
		}
		return res
	}
	switch c := crash(errb.String()); {
	case hung:
		res.viol = &Violation{What: "hang", Detail: "the process does not end"}
	case c != "":
		res.viol = &Violation{What: "crash", Detail: c}
	case werr != nil || !done:
		t := errb.String()
		if len(t) > 3000 {
			t = t[:3000]
		}
		res.toolErr = fmt.Sprintf("batch %s %d-%d at %d: %v\n%s", v.name, from, to, res.at, werr, t)
	}
	if res.viol != nil {
		res.c = genCase(k.o.prop, v.name, k.o.seed, res.at, v.race)
	}
	return res
}

// raceReport shortens the report of the race detector
func raceReport(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "verif.sim/") || strings.Contains(t, "main.") {
			continue
		}
		if strings.HasPrefix(t, "/") {
			if k := strings.LastIndex(t, " +0x"); k > 0 {
				t = t[:k]
			}
			t = "  " + filepath.Base(filepath.Dir(t)) + "/" + filepath.Base(t)
		}
		out = append(out, t)
		if len(out) > 24 {
			break
		}
	}
	return "\n  " + strings.Join(out, "\n  ")
}

func runCheck(o checkOpts) int {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	k := &coordinator{o: o, self: self, stats: newStats(), procs: map[*exec.Cmd]bool{}, first: map[string]*batchResult{}}
	k.vars = variantsOf(o.prop)
	if o.tier != "quick" {
		for i := range k.vars {
			k.vars[i].max = 0
		}
	}
	k.spent = make([]time.Duration, len(k.vars))
	k.next = make([]int, len(k.vars))
	deadline := t0.Add(time.Duration(o.secs) * time.Second)

	kf := knownFindings(o, self)

	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	violations := 0
	var searched time.Duration
	// A violation that cannot be repeated does not end the search
	for tries := 0; tries < 4 && violations == 0; tries++ {
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					k.mu.Lock()
					if k.stop || time.Now().After(deadline) || k.found != nil {
						k.mu.Unlock()
						return
					}
					vi, from, to := k.take()
					k.mu.Unlock()
					if vi < 0 {
						return
					}
					v := k.vars[vi]
					res := k.batch(v, from, to, deadline)
					k.mu.Lock()
					k.spent[vi] += res.dur - time.Duration(v.batch)*100*time.Millisecond
					if res.toolErr != "" {
						k.errors = append(k.errors, res.toolErr)
						if len(k.errors) > 5 {
							k.stop = true
						}
					}
					if res.viol != nil && k.found == nil {
						k.found = res
						k.stop = true
						for p := range k.procs {
							p.Process.Kill()
						}
					}
					if _, ok := k.first[v.name]; !ok && res.viol == nil && res.toolErr == "" && !res.killed {
						k.first[v.name] = res
					}
					k.mu.Unlock()
				}
			}()
		}
		wg.Wait()
		searched = time.Since(t0)
		k.stop = false
		if k.found == nil {
			break
		}
		if k.report(k.found, searched) {
			violations = 1
		}
		k.found = nil
	}
	recheck, mismatch := 0, 0
	if violations == 0 {
		names := make([]string, 0, len(k.first))
		for n := range k.first {
			names = append(names, n)
		}
		sort.Strings(names)
		old := k.stats
		k.stats = newStats()
		for _, n := range names {
			b := k.first[n]
			to := b.from + 2
			if to > b.to {
				to = b.to
			}
			runs := k.runs
			r := k.batch(b.v, b.from, to, time.Now().Add(time.Minute))
			k.runs = runs
			for i, h := range r.hashes {
				recheck++
				if b.hashes[i] != h {
					mismatch++
					k.errors = append(k.errors, fmt.Sprintf("run %d of %s is not repeatable", i, n))
				}
			}
		}
		k.stats = old
	}
	for _, e := range k.errors {
		fmt.Fprintln(os.Stderr, "simdrv:", e)
	}
	if err := k.evidence(t0, searched, violations, recheck, mismatch, kf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if violations > 0 {
		return 1
	}
	if k.runs == 0 {
		fmt.Fprintln(os.Stderr, "simdrv: nothing could be run")
		return 2
	}
	fmt.Printf("%s: held in %d runs (%.0f s)\n", o.prop, k.runs, time.Since(t0).Seconds())
	return 0
}

// report confirms a violation in a fresh process, shrinks it, and writes
// the replay file. It returns false if it cannot be repeated.
func (k *coordinator) report(b *batchResult, searched time.Duration) bool {
	bin := k.bin(b.v.race)
	r := &Replay{Property: k.o.prop, What: b.viol.What, Detail: b.viol.Detail, Race: b.v.race, Seed: k.o.seed, Index: b.at, Variant: b.v.name, Case: b.c}
	s := &shrinker{bin: bin, what: b.viol.What, syntax: strings.Contains(b.viol.Detail, "Syntax error"), par: 8, rep: 1, best: r}
	if b.v.race {
		s.rep = 2
		s.par = 6
	}
	confirm := func(r *Replay, n int) bool {
		for i := 0; i < n; i++ {
			a := tryReplay(bin, r, 130*time.Second)
			if a.viol != nil {
				r.What = a.viol.What
				s.what = a.viol.What
				d := a.viol.Detail
				if b.v.race {
					d += raceReport(a.stderr)
				}
				r.Detail = d
				return true
			}
		}
		return false
	}
	n := 2
	if b.v.race {
		n = 6
	}
	ok := confirm(r, n)
	if !ok {
		for i := b.from; i < b.at; i++ {
			r.Prelude = append(r.Prelude, genCase(k.o.prop, b.v.name, k.o.seed, i, b.v.race))
		}
		ok = confirm(r, n)
	}
	if !ok {
		k.errors = append(k.errors, fmt.Sprintf("case %d of %s: %s: %s; it could not be repeated", b.at, b.v.name, b.viol.What, b.viol.Detail))
		return false
	}
	s.deadline = time.Now().Add(time.Duration(k.o.shrinkSecs) * time.Second)
	orig := cloneReplay(r)
	if b.viol.What != "hang" {
		s.run()
	}
	best := s.best
	if !confirm(best, n+1) {
		best = orig
		confirm(best, n)
	}
	best.Note = fmt.Sprintf("found after %.1f s in run %d of %s with seed %d; shrunk from %d to %d bytes with %d runs", searched.Seconds(), b.at, b.v.name, k.o.seed, len(mustJSON(orig.Case)), len(mustJSON(best.Case)), s.tries)
	os.MkdirAll(k.o.replays, 0755)
	file := filepath.Join(k.o.replays, fmt.Sprintf("%s-%x.json", k.o.prop, hashStr(string(mustJSON(best.Case)))&0xffffffff))
	js, _ := json.MarshalIndent(best, "", " ")
	if err := os.WriteFile(file, js, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s\n  %s\n  %s\n", best.What, best.Detail, best.Note)
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.o.prop, file)
	return true
}

func (k *coordinator) evidence(t0 time.Time, searched time.Duration, violations, recheck, mismatch int, kf []string) error {
	st := k.stats
	secs := searched.Seconds()
	faults := map[string]int{}
	counts := map[string]int{}
	for c, n := range st.C {
		if strings.HasPrefix(c, "fault ") {
			faults[c[6:]] = n
		} else {
			counts[c] = n
		}
	}
	distinct := map[string]int{}
	for d, m := range st.D {
		distinct[d] = len(m)
	}
	var seeds []string
	for i, v := range k.vars {
		seeds = append(seeds, fmt.Sprintf("%s: cases 0..%d of seed %d", v.name, k.next[i]-1, k.o.seed))
	}
	runs := k.runs
	if n := st.C["schedules"]; n > 0 {
		runs = n
		for _, v := range k.vars {
			if !strings.HasPrefix(v.name, "conc") {
				runs += st.C["runs "+v.name]
			}
		}
	}
	samples := []interface{}{}
	for _, s := range st.Samples {
		samples = append(samples, s)
	}
	cov := map[string]interface{}{
		"evaluations":         st.Eval,
		"distinct_nontrivial": len(st.NonTriv),
		"rule":                ruleOf(k.o.prop),
		"samples":             samples,
		"simulated_runs":      runs,
		"cases":               k.runs,
		"runs_per_hour":       int(float64(runs) / secs * 3600),
		"seeds_per_hour":      int(float64(k.runs) / secs * 3600),
		"seeds":               seeds,
		"simulated_steps":     st.C["steps"],
		"simulated_time":      simTime(st),
		"faults_injected":     faults,
		"distinct_states":     st.S.count(),
		"distinct_states_are": "distinct contents of the graphs after an operation (histories), or distinct observations of a session (concurrent runs); estimated with a sketch of the 4096 smallest hashes above that number",
		"distinct":            distinct,
		"counts":              counts,
		"determinism_rechecked": map[string]int{
			"runs": recheck, "differences": mismatch,
		},
		"known_findings_confirmed": kf,
		"errors_of_the_machinery":  len(k.errors),
		"real_components":          []string{"opencypher (all of it, instrumented copy of the working tree)", "its generated parser and the antlr4 runtime", "lpg v2.0.0 (graph; one defect repaired in the copy, see DESIGN.md KF1)", "goment and its format parser", "go-timezone, gods"},
		"stubbed_components":       []string{"scheduler (baton passing between goroutines)", "wall clock", "zone database (faults and recorded lookups; the data is the real one)", "map iteration order", "locks (simulated, no real blocking)", "standard output", "registered functions and property filters (scripted)"},
	}
	ev := map[string]interface{}{
		"property":    k.o.prop,
		"tier":        k.o.tier,
		"seed":        k.o.seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(k.o.evidence), 0755)
	return os.WriteFile(k.o.evidence, append(b, '\n'), 0644)
}

func simTime(st *Stats) string {
	if n := st.C["simulated seconds"]; n > 0 {
		return fmt.Sprintf("%d s of the simulated clock", n)
	}
	return fmt.Sprintf("%d scheduler steps (one per statement executed by the code under test; the property has no clock)", st.C["steps"])
}

var assumptions = []string{
	"the instrumented copies behave like the original files (the instrumenter only inserts calls and replaces map iteration, clock, zone, lock, goroutine and output calls)",
	"the reference model in /verif/sim/drv states the intended meaning of the statements; statements outside of its domain are not compared and are counted as dropped",
	"graphs of at most about 60 nodes and 120 relationships, histories of at most 60 operations, at most 4 sessions",
}
