package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// The shrinker removes parts of a failing case as long as it keeps
// failing in the same way in a fresh process.

type attempt struct {
	viol     *Violation
	switches [][2]uint64
	stderr   string
}

// tryReplay runs a replay in a fresh process
func tryReplay(bin string, r *Replay, timeout time.Duration) attempt {
	cmd := exec.Command(bin, "replay", "-json", "-")
	cmd.Stdin = bytes.NewReader(mustJSON(r))
	var out, errb limitedBuffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = childEnv()
	if err := cmd.Start(); err != nil {
		return attempt{}
	}
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	hung := !timer.Stop()
	a := attempt{stderr: errb.String()}
	var res replayResult
	if json.Unmarshal(out.Bytes(), &res) == nil {
		a.viol, a.switches = res.Viol, res.Switches
		return a
	}
	if hung {
		a.viol = &Violation{What: "hang", Detail: "the process does not end"}
		return a
	}
	if err != nil {
		if c := crash(errb.String()); c != "" {
			a.viol = &Violation{What: "crash", Detail: c}
		}
	}
	return a
}

// crash recognises the way the Go runtime ends a process; panics of the
// simulator itself are not a crash of the code under test
func crash(stderr string) string {
	i := strings.Index(stderr, "fatal error: ")
	if i < 0 {
		if i = strings.Index(stderr, "runtime: goroutine stack exceeds"); i < 0 {
			return ""
		}
	}
	t := stderr[i:]
	if len(t) > 1500 {
		t = t[:1500]
	}
	return t
}

type limitedBuffer struct{ bytes.Buffer }

func (b *limitedBuffer) Write(p []byte) (int, error) {
	if b.Len() < 4<<20 {
		b.Buffer.Write(p)
	}
	return len(p), nil
}

func childEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "TZ=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			env = append(env, e)
		}
	}
	return append(env, "GORACE=halt_on_error=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0", "GOMAXPROCS=2", "TZ=UTC", "GOTRACEBACK=none")
}

type shrinker struct {
	bin      string
	best     *Replay
	what     string
	syntax   bool // the violation is about a statement that cannot be parsed
	deadline time.Time
	tries    int
	par      int
	rep      int
}

func (s *shrinker) fails(r *Replay) *attempt {
	for i := 0; i < s.rep; i++ {
		a := tryReplay(s.bin, r, 40*time.Second)
		if a.viol != nil && a.viol.What == s.what && (s.syntax || !strings.Contains(a.viol.Detail, "Syntax error")) {
			return &a
		}
	}
	return nil
}

// first tries candidates in parallel, in order, and adopts the first that
// still fails
func (s *shrinker) first(cands []*Replay) bool {
	for i := 0; i < len(cands); i += s.par {
		if time.Now().After(s.deadline) {
			return false
		}
		j := i + s.par
		if j > len(cands) {
			j = len(cands)
		}
		res := make([]*attempt, j-i)
		var wg sync.WaitGroup
		for k := i; k < j; k++ {
			wg.Add(1)
			s.tries++
			go func(k int) {
				defer wg.Done()
				res[k-i] = s.fails(cands[k])
			}(k)
		}
		wg.Wait()
		for k, a := range res {
			if a != nil {
				s.best = cands[i+k]
				s.best.Detail = a.viol.Detail
				return true
			}
		}
	}
	return false
}

func cloneReplay(r *Replay) *Replay {
	n := &Replay{}
	if err := json.Unmarshal(mustJSON(r), n); err != nil {
		panic(err)
	}
	return n
}

// lists shortens a list by chunks of decreasing size
func (s *shrinker) list(size func(*Replay) int, cut func(r *Replay, from, to int)) {
	for chunk := (size(s.best) + 1) / 2; chunk >= 1; {
		n := size(s.best)
		var cands []*Replay
		for from := 0; from < n; from += chunk {
			to := from + chunk
			if to > n {
				to = n
			}
			r := cloneReplay(s.best)
			cut(r, from, to)
			cands = append(cands, r)
		}
		if time.Now().After(s.deadline) {
			return
		}
		if !s.first(cands) {
			if chunk == 1 {
				return
			}
			chunk = (chunk + 1) / 2
			continue
		}
		if n := size(s.best); chunk > n {
			chunk = n
		}
	}
}

func (s *shrinker) run() {
	s.list(func(r *Replay) int { return len(r.Prelude) }, func(r *Replay, a, b int) {
		r.Prelude = append(r.Prelude[:a:a], r.Prelude[b:]...)
	})
	for round := 0; round < 4; round++ {
		t := s.tries
		before := len(mustJSON(s.best))
		if s.best.Case.Kind == "conc" {
			s.list(func(r *Replay) int { return len(r.Case.Scheds) }, func(r *Replay, a, b int) {
				r.Case.Scheds = append(r.Case.Scheds[:a:a], r.Case.Scheds[b:]...)
			})
			s.schedule()
			for i := 0; i < len(s.best.Case.Session); i++ {
				i := i
				s.list(func(r *Replay) int { return len(r.Case.Session[i].Ops) }, func(r *Replay, a, b int) {
					o := r.Case.Session[i].Ops
					r.Case.Session[i].Ops = append(o[:a:a], o[b:]...)
				})
			}
		} else {
			s.list(func(r *Replay) int { return len(r.Case.Ops) }, func(r *Replay, a, b int) {
				r.Case.Ops = append(r.Case.Ops[:a:a], r.Case.Ops[b:]...)
			})
		}
		if s.best.Case.Clock != nil {
			s.list(func(r *Replay) int { return len(r.Case.Clock.Steps) }, func(r *Replay, a, b int) {
				o := r.Case.Clock.Steps
				r.Case.Clock.Steps = append(o[:a:a], o[b:]...)
			})
		}
		if s.best.Case.Rset != nil {
			s.list(func(r *Replay) int { return len(r.Case.Rset.Ops) }, func(r *Replay, a, b int) {
				o := r.Case.Rset.Ops
				r.Case.Rset.Ops = append(o[:a:a], o[b:]...)
			})
		}
		s.list(func(r *Replay) int { return len(r.Case.Texts) }, func(r *Replay, a, b int) {
			if r.Case.Kind == "text" {
				r.Case.Texts = append(r.Case.Texts[:a:a], r.Case.Texts[b:]...)
			}
		})
		s.compact()
		s.graphs()
		s.tree()
		if time.Now().After(s.deadline) || s.tries == t || len(mustJSON(s.best)) == before {
			break
		}
	}
}

// schedule replaces the scheduling policy by the recorded switches and
// shortens them
func (s *shrinker) schedule() {
	c := s.best.Case
	if len(c.Scheds) != 1 {
		return
	}
	if c.Scheds[0].Policy != "replay" {
		a := s.fails(s.best)
		if a == nil || len(a.switches) == 0 || len(a.switches) > 100000 {
			return
		}
		r := cloneReplay(s.best)
		r.Case.Scheds[0] = SchedSpec{Policy: "replay", Switches: a.switches}
		if !s.first([]*Replay{r}) {
			return
		}
	}
	s.list(func(r *Replay) int { return len(r.Case.Scheds[0].Switches) }, func(r *Replay, a, b int) {
		w := r.Case.Scheds[0].Switches
		r.Case.Scheds[0].Switches = append(w[:a:a], w[b:]...)
	})
}

// compact removes statements and patterns that are not used
func (s *shrinker) compact() {
	r := cloneReplay(s.best)
	c := r.Case
	used, usedP := map[int]bool{}, map[int]bool{}
	live := func(i int) bool { return true }
	if c.Kind == "conc" {
		l := map[int]bool{}
		for _, x := range c.Session {
			for _, k := range x.Ops {
				l[k] = true
			}
		}
		live = func(i int) bool { return l[i] }
	}
	var ops []Op
	renum := map[int]int{}
	for i, op := range c.Ops {
		if live(i) {
			renum[i] = len(ops)
			ops = append(ops, op)
			switch op.Kind {
			case "stmt":
				used[op.S] = true
			case "rel":
				usedP[op.S] = true
			}
		}
	}
	c.Ops = ops
	for i := range c.Session {
		for k, x := range c.Session[i].Ops {
			c.Session[i].Ops[k] = renum[x]
		}
	}
	sm, pm := map[int]int{}, map[int]int{}
	var ss []*Stmt
	for i, x := range c.Stmts {
		if used[i] {
			sm[i] = len(ss)
			ss = append(ss, x)
		}
	}
	var ps []Part
	for i, x := range c.Parts {
		if usedP[i] {
			pm[i] = len(ps)
			ps = append(ps, x)
		}
	}
	c.Stmts, c.Parts = ss, ps
	for i := range c.Ops {
		switch c.Ops[i].Kind {
		case "stmt":
			c.Ops[i].S = sm[c.Ops[i].S]
		case "rel":
			c.Ops[i].S = pm[c.Ops[i].S]
		}
	}
	s.first([]*Replay{r})
}

// graphs removes nodes and relationships of the initial graphs
func (s *shrinker) graphs() {
	for i := range s.best.Case.Graphs {
		i := i
		s.list(func(r *Replay) int { return len(r.Case.Graphs[i].Edges) }, func(r *Replay, a, b int) {
			e := r.Case.Graphs[i].Edges
			r.Case.Graphs[i].Edges = append(e[:a:a], e[b:]...)
		})
		s.list(func(r *Replay) int { return len(r.Case.Graphs[i].Nodes) }, func(r *Replay, a, b int) {
			g := &r.Case.Graphs[i]
			g.Nodes = append(g.Nodes[:a:a], g.Nodes[b:]...)
			var es []GEdge
			for _, e := range g.Edges {
				if e.From >= a && e.From < b || e.To >= a && e.To < b {
					continue
				}
				if e.From >= b {
					e.From -= b - a
				}
				if e.To >= b {
					e.To -= b - a
				}
				es = append(es, e)
			}
			g.Edges = es
		})
	}
}

// tree removes optional parts anywhere else in the case
func (s *shrinker) tree() {
	keep := map[string]bool{"graphs": true, "ctxs": true, "stmts": true, "parts": true, "ops": true, "session": true, "scheds": true, "nodes": true, "edges": true, "nested": true, "a": true, "switches": true, "texts": true, "queries": true}
	for progress := true; progress && time.Now().Before(s.deadline); {
		progress = false
		var cands []*Replay
		// every path that can be removed or simplified
		var root interface{}
		json.Unmarshal(mustJSON(s.best.Case), &root)
		var edits []func(root interface{})
		var walk func(v interface{}, path []interface{})
		at := func(root interface{}, path []interface{}) interface{} {
			for _, p := range path {
				switch k := p.(type) {
				case string:
					root = root.(map[string]interface{})[k]
				case int:
					root = root.([]interface{})[k]
				}
			}
			return root
		}
		walk = func(v interface{}, path []interface{}) {
			path = append([]interface{}{}, path...)
			switch x := v.(type) {
			case map[string]interface{}:
				ks := make([]string, 0, len(x))
				for k := range x {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				if op, ok := x["op"].(string); ok && op != "lit" {
					edits = append(edits, func(root interface{}) {
						m := at(root, path).(map[string]interface{})
						for k := range m {
							delete(m, k)
						}
						m["op"] = "lit"
						m["v"] = map[string]interface{}{"k": "int", "i": 1}
					})
					if a, ok := x["a"].([]interface{}); ok {
						for i := range a {
							i := i
							edits = append(edits, func(root interface{}) {
								m := at(root, path).(map[string]interface{})
								arg := m["a"].([]interface{})[i].(map[string]interface{})
								for k := range m {
									delete(m, k)
								}
								for k, v := range arg {
									m[k] = v
								}
							})
						}
					}
				}
				for _, k := range ks {
					k := k
					switch k {
					case "where", "skip", "limit", "params", "faults", "props", "labels", "types", "style", "sub", "fresh", "filter", "star", "path", "param", "onCreate", "onMatch", "map", "mapSeed", "as", "varLen", "texts":
						edits = append(edits, func(root interface{}) { delete(at(root, path).(map[string]interface{}), k) })
					case "var":
						// not of SET items, where it is required
						if x["kind"] == nil {
							edits = append(edits, func(root interface{}) { delete(at(root, path).(map[string]interface{}), k) })
						}
					}
					walk(x[k], append(path, k))
				}
			case []interface{}:
				last := ""
				if len(path) > 0 {
					last, _ = path[len(path)-1].(string)
				}
				rm := !keep[last]
				if last == "parts" && len(path) > 1 {
					rm = true // of a clause
				}
				if last == "queries" && len(x) > 1 {
					rm = true
				}
				for i := range x {
					i := i
					if rm && (len(x) > 1 || last != "clauses" && last != "queries" && last != "parts" && last != "proj") {
						edits = append(edits, func(root interface{}) {
							parent := at(root, path[:len(path)-1])
							l := at(root, path).([]interface{})
							n := append(append([]interface{}{}, l[:i]...), l[i+1:]...)
							switch k := path[len(path)-1].(type) {
							case string:
								parent.(map[string]interface{})[k] = n
							case int:
								parent.([]interface{})[k] = n
							}
						})
					}
					walk(x[i], append(path, i))
				}
			}
		}
		walk(root, nil)
		seen := map[string]bool{string(mustJSON(root)): true}
		for _, e := range edits {
			var r interface{}
			json.Unmarshal(mustJSON(s.best.Case), &r)
			func() {
				defer func() { recover() }()
				e(r)
			}()
			b := mustJSON(r)
			if seen[string(b)] {
				continue
			}
			seen[string(b)] = true
			c, err := caseFromJSON(b)
			if err != nil {
				continue
			}
			n := *s.best
			n.Case = c
			cands = append(cands, &n)
		}
		progress = s.first(cands)
	}
}
