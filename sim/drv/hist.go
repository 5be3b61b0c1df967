package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

func (s *Stats) max(k string, n int) {
	if n > s.C["max "+k] {
		s.C["max "+k] = n
	}
}

// stepLimit is the number of steps an evaluation may take. The constants
// are more than ten times of what the code needs.
func (m *MWorld) stepLimit() uint64 {
	return 8000000 + 3000*uint64(m.work) + 300*uint64(m.bound)
}

func newMWorld(c *Case, st *Stats) *MWorld {
	m := &MWorld{fns: map[string]FnDef{}, nested: c.Nested, stats: st.C}
	for _, gs := range c.Graphs {
		g := &MGraph{base: len(gs.Nodes) + len(gs.Edges)}
		for _, n := range gs.Nodes {
			g.newNode(n.Labels, modelProps(n.Props))
		}
		for _, e := range gs.Edges {
			g.newEdge(e.From, e.To, e.Label, modelProps(e.Props))
		}
		m.graphs = append(m.graphs, g)
	}
	for i, cs := range c.Ctxs {
		var x *MCtx
		if cs.Parent >= 0 && cs.Parent < i {
			x = m.ctxs[cs.Parent].sub()
		} else {
			x = &MCtx{vars: map[string]V{}, params: map[string]V{}, g: cs.Graph, filter: cs.Filter}
		}
		for k, v := range cs.Params {
			v := v
			x.params[k] = v.rt()
		}
		m.ctxs = append(m.ctxs, x)
	}
	for _, f := range c.Fns {
		m.fns[f.Name] = f
	}
	return m
}

func modelProps(p map[string]Val) map[string]V {
	r := map[string]V{}
	for k, v := range p {
		v := v
		r[k] = v.rt()
	}
	return r
}

// keptRows are rows returned earlier
type keptRows struct {
	op   int
	rs   cy.ResultSet
	text []string
}

type hist struct {
	c      *Case
	m      *MWorld
	r      *RWorld
	st     *Stats
	kept   []keptRows
	probes map[int]bool
	// hash of the graphs before the operation
	preHash uint64
}

func (h *hist) dump(m *MWorld) string {
	var b strings.Builder
	for _, g := range m.graphs {
		b.WriteString(dumpModel(g))
	}
	return b.String()
}

// modelOp evaluates a statement or search in the model. It returns
// dropped != "" if its outcome is not determined.
type modelOut struct {
	rows    []Row
	sel     *selection
	err     error
	dropped string
	ctx     *MCtx
}

func protect(f func()) (dropped string) {
	defer func() {
		if e := recover(); e != nil {
			d, ok := e.(discard)
			if !ok {
				panic(e)
			}
			dropped = d.why
		}
	}()
	f()
	return ""
}

func (h *hist) modelStmt(m *MWorld, op *Op) (out modelOut) {
	m.begin(op.Faults)
	out.dropped = protect(func() {
		c := m.ctxs[op.Ctx]
		if op.Sub {
			c = c.sub()
		}
		for k, v := range op.Params {
			v := v
			c.params[k] = v.rt()
		}
		out.ctx = c
		before := make([]int, len(m.graphs))
		for i, g := range m.graphs {
			before[i] = len(g.Nodes)
		}
		out.rows, out.sel, out.err = m.stmt(c, h.c.Stmts[op.S], "")
		for i, g := range m.graphs {
			for _, n := range g.Nodes[before[i]:] {
				if n.Deleted {
					drop("element created and deleted by one statement")
				}
			}
		}
		if out.err == nil {
			dead := func(v V) {
				switch x := v.(type) {
				case NRef:
					if m.graphs[c.g].Nodes[x].Deleted {
						drop("deleted element in result")
					}
				case PRef:
					for _, e := range x {
						if m.graphs[c.g].Edges[e].Deleted {
							drop("deleted element in result")
						}
					}
				}
			}
			for _, r := range out.rows {
				for _, v := range r {
					dead(v)
				}
			}
		}
	})
	return
}

func runHist(c *Case, st *Stats) *Violation {
	probes := map[int]bool{}
	for {
		v, need := runHistOnce(c, st, probes)
		if need < 0 {
			return v
		}
		probes[need] = true
		st.inc("probe reruns", 1)
		if len(probes) > 6 {
			st.inc("given up: too many probes", 1)
			return nil
		}
	}
}

func setupRun(c *Case) {
	runSuffix++
	rt.SetMapOrder(c.Map, c.MapSeed)
	rt.SetOutput(func([]byte) {})
	for _, f := range c.Fns {
		registerFn(f)
	}
}

func runHistOnce(c *Case, st *Stats, probes map[int]bool) (*Violation, int) {
	setupRun(c)
	h := &hist{c: c, m: newMWorld(c, st), r: newRWorld(c), st: st, probes: probes}
	worlds[0] = h.r
	for k := range c.Ops {
		v, need, stop := h.op(k)
		if v != nil || need >= 0 || stop {
			return v, need
		}
		st.S.add(hashStr(h.dump(h.m)))
	}
	return nil, -1
}

func (h *hist) op(k int) (v *Violation, need int, stop bool) {
	need = -1
	op := &h.c.Ops[k]
	fail := func(what, f string, a ...interface{}) *Violation {
		return &Violation{Op: k, What: what, Detail: fmt.Sprintf(f, a...)}
	}
	if op.Ctx >= len(h.c.Ctxs) {
		return nil, -1, false
	}
	h.st.inc("ops", 1)
	rctx, mctx := h.r.ctxs[op.Ctx], h.m.ctxs[op.Ctx]
	switch op.Kind {
	case "setvar":
		val, ok := h.setvarValue(op, mctx)
		if !ok {
			return nil, -1, false
		}
		mctx.vars[op.Name] = val
		if n, ok := val.(NRef); ok {
			for x, id := range h.r.nodes {
				if id == int(n) && x.GetGraph() == h.r.graphs[mctx.g] {
					rctx.SetVar(op.Name, h.r.given(x))
				}
			}
		} else {
			rctx.SetVar(op.Name, h.r.given(native(val)))
		}
	case "rmvar":
		delete(mctx.vars, op.Name)
		rctx.RemoveVar(op.Name)
	case "setparam":
		mctx.params[op.Name] = op.Val.rt()
		rctx.SetParameter("$"+op.Name, h.r.given(native(op.Val.rt())))
	case "reg":
		h.m.fns[op.Fn.Name] = *op.Fn
		registerFn(*op.Fn)
	case "filter":
		if mctx.parent == nil {
			// derived contexts use the filter in effect when they were made
			mctx.filter = true
			rctx.PropertyValueFromNativeFilter = h.r.filter
		}
	case "stmt":
		if op.S >= len(h.c.Stmts) {
			return nil, -1, false
		}
		v, need, stop = h.stmt(k, op)
		if v != nil || need >= 0 || stop {
			return
		}
	case "rel":
		if op.S >= len(h.c.Parts) || op.Node == nil {
			return nil, -1, false
		}
		if v = h.rel(k, op); v != nil {
			return
		}
	default:
		panic("operation " + op.Kind)
	}
	if p := h.contexts(nil); p != "" {
		return fail("context", "%s", p), -1, false
	}
	return nil, -1, false
}

func (h *hist) setvarValue(op *Op, c *MCtx) (V, bool) {
	if op.Node == nil {
		return op.Val.rt(), true
	}
	g := h.m.graphs[c.g]
	var live []int
	for _, n := range g.Nodes {
		if !n.Deleted {
			live = append(live, n.ID)
		}
	}
	if len(live) == 0 {
		return nil, false
	}
	return NRef(live[*op.Node%len(live)]), true
}

// contexts compares the variables and parameters of all contexts
func (h *hist) contexts(skip *MCtx) string {
	for i, mc := range h.m.ctxs {
		if p := h.context(mc, h.r.ctxs[i], nil); p != "" {
			return fmt.Sprintf("context %d: %s", i, p)
		}
	}
	return ""
}

func (h *hist) context(mc *MCtx, rc *cy.EvalContext, mp *mapping) string {
	vars := rc.GetVarsNearestScope()
	got := Row{}
	for k, v := range vars {
		got[k] = h.r.value(v)
	}
	if a, b := render(Row(mc.vars), nil), render(got, mp); a != b {
		return fmt.Sprintf("variables are {%s} instead of {%s}", b, a)
	}
	if h.c.Prop != "C13" {
		return ""
	}
	for _, n := range varUniverse {
		want, ok := mc.get(n)
		v, err := rc.GetVar(n)
		if ok != (err == nil) {
			return fmt.Sprintf("variable %s: found %v instead of %v", n, err == nil, ok)
		}
		if ok {
			if a, b := renderV(want, nil), renderV(h.r.value(v), mp); a != b {
				return fmt.Sprintf("variable %s is %s instead of %s", n, b, a)
			}
		} else if e := (cy.ErrUnknownVariable{}); !errors.As(err, &e) || e.Name != n {
			return fmt.Sprintf("variable %s: error is %v", n, err)
		}
	}
	for _, n := range paramUniverse {
		want, ok := mc.param(n)
		v, err := rc.GetParameter("$" + n)
		if ok != (err == nil) {
			return fmt.Sprintf("parameter %s: found %v instead of %v", n, err == nil, ok)
		}
		if ok {
			if a, b := renderV(want, nil), renderV(h.r.value(v), mp); a != b {
				return fmt.Sprintf("parameter %s is %s instead of %s", n, b, a)
			}
		} else if e := (cy.ErrUnknownParameter{}); !errors.As(err, &e) {
			return fmt.Sprintf("parameter %s: error is %v", n, err)
		}
	}
	return ""
}

// probe finds the order in which the rows of the reading clauses of a
// statement are enumerated, by evaluating the reading clauses only
func (h *hist) probe(op *Op) map[string]map[string][]int {
	hints := map[string]map[string][]int{}
	s := h.c.Stmts[op.S]
	for qi, q := range s.Queries {
		for ci, cl := range q.Clauses {
			if cl.Kind != "match" && cl.Kind != "optional" {
				continue
			}
			if h.sideEffects(&Query{Clauses: q.Clauses[:ci+1]}) {
				continue
			}
			p := Query{}
			for i := 0; i <= ci; i++ {
				c := q.Clauses[i]
				if i == ci {
					c.Where = nil
					c.Kind = "match"
				}
				p.Clauses = append(p.Clauses, c)
			}
			p.Clauses = append(p.Clauses, Clause{Kind: "return", Star: true})
			ps := &Stmt{Queries: []Query{p}}
			rc := h.r.ctxs[op.Ctx].SubContext()
			h.r.setParams(rc, op.Params)
			h.r.begin(nil)
			h.r.quiet = true
			rt.StartCount(20000000)
			res := h.r.evalStmt(ps.Text(), true, rc)
			rt.Stop()
			h.r.quiet = false
			if res.Err != nil || res.Panic != nil {
				continue
			}
			m := map[string][]int{}
			for i, r := range h.r.rows(res.rs) {
				k := render(r, nil)
				m[k] = append(m[k], i)
			}
			hints[fmt.Sprintf("%d.%d", qi, ci)] = m
		}
		if (&Stmt{Queries: []Query{q}}).hasUpdates() {
			break
		}
	}
	return hints
}

// sideEffects tells if evaluating an expression of the query may change
// the graph
func (h *hist) sideEffects(q *Query) bool {
	upd := false
	for _, n := range h.c.Nested {
		upd = upd || n.hasUpdates()
	}
	if !upd {
		return false
	}
	r := false
	(&Stmt{Queries: []Query{*q}}).exprs(func(e *Expr) {
		if e.Op == "fn" && h.m.fns[e.N].Kind == "nest" {
			r = true
		}
	})
	return r
}

func (h *hist) stmt(k int, op *Op) (v *Violation, need int, stop bool) {
	need = -1
	s := h.c.Stmts[op.S]
	text := s.Text()
	m := h.m.clone()
	if h.probes[k] {
		m.hints = h.probe(op)
	} else {
		m.hints = nil
	}
	h.preHash = hashStr(h.dump(h.m))
	out := h.modelStmt(m, op)
	if out.dropped != "" {
		h.st.inc("dropped: "+out.dropped, 1)
		h.m.hints = nil
		return nil, -1, false
	}
	before := make([][2]int, len(h.m.graphs))
	for i, g := range h.m.graphs {
		before[i] = [2]int{len(g.Nodes), len(g.Edges)}
	}
	rc := h.r.ctxs[op.Ctx]
	if op.Sub {
		rc = rc.SubContext()
	}
	h.r.setParams(rc, op.Params)
	h.r.curG = h.m.ctxs[op.Ctx].g
	h.r.begin(op.Faults)
	limit := m.stepLimit()
	wrapped := h.r.wrappedValues()
	rt.StartCount(limit)
	res := h.r.evalStmt(text, op.Fresh, rc)
	res.Steps = rt.Stop()
	h.st.inc("steps", int(res.Steps))
	h.st.max("largest use of the step limit in 1000", int(res.Steps*1000/limit))
	res.Rows = h.r.rows(res.rs)
	for _, f := range h.r.fired {
		h.st.inc("fault "+f.Where+" "+f.Kind, 1)
	}
	fail := func(what, f string, a ...interface{}) *Violation {
		return &Violation{Op: k, What: what, Detail: fmt.Sprintf("%s\n  statement: %s", fmt.Sprintf(f, a...), text)}
	}
	if sl, ok := res.Panic.(rt.StepLimit); ok {
		return fail("termination", "the statement did not end within %d steps", sl.Steps), -1, false
	}
	if d, ok := res.Panic.(rt.Deadlock); ok {
		return fail("deadlock", "the statement waits for itself: %s", d.Msg), -1, false
	}
	reads := !s.hasUpdates()
	for i := range s.Queries {
		reads = reads && !h.sideEffects(&s.Queries[i])
	}
	if n := h.r.wrappedValues(); reads && n != wrapped {
		return fail("graph", "the query changed the graphs: %d instead of %d property values are objects with a native value", n, wrapped), -1, false
	}
	snaps := make([]graphSnap, len(h.r.graphs))
	for i, g := range h.r.graphs {
		n, e, p := h.r.snapshot(g)
		if p != "" {
			return fail("consistency", "graph %d is inconsistent: %s\n  %s", i, p, dumpSnapshot(h.r, n, e)), -1, false
		}
		snaps[i] = graphSnap{n, e}
	}
	var what, detail string
	for try := 0; ; try++ {
		what, detail = h.compare(m, &out, res, rc, snaps, before)
		if what == "" {
			break
		}
		if try > 60 {
			m.inexact = true
			break
		}
		if !m.nextChoice() {
			break
		}
		m2 := h.m.clone()
		m2.hints, m2.choices, m2.radix = m.hints, m.choices, m.radix
		out = h.modelStmt(m2, op)
		if out.dropped != "" {
			h.st.inc("given up: "+out.dropped, 1)
			return nil, -1, true
		}
		m2.inexact = m2.inexact || m.inexact
		m = m2
	}
	if what != "" {
		if m.rowsMax > 1 && !h.probes[k] {
			return nil, k, false
		}
		if m.probeMiss != "" {
			return fail("rows", "the row %s is not found by the reading clauses; %s", m.probeMiss, detail), -1, false
		}
		if m.inexact || m.rowsMax > 1 {
			h.st.inc("given up: row order", 1)
			return nil, -1, true
		}
		return fail(what, "%s", detail), -1, false
	}
	h.st.inc("statements", 1)
	pre := h.preHash
	post := hashStr(h.dump(m))
	outcome := fmt.Sprint(len(res.Rows), res.Err, res.Panic)
	for _, r := range res.Rows {
		outcome += render(r, nil)
	}
	h.st.trace(hashStr(outcome) ^ post)
	h.st.evaluation(pre^hashStr(text+string(mustJSON(op))), len(res.Rows) > 0 || pre != post || len(h.r.fired) > 0)
	h.st.inc("rows returned", len(res.Rows))
	switch {
	case out.err == nil:
		h.st.inc("succeeded", 1)
	default:
		h.st.inc("failed", 1)
	}
	m.hints = nil
	m.choices, m.radix = nil, nil
	h.m = m
	// rows returned earlier have not changed
	for _, kr := range h.kept {
		for i, r := range h.r.rows(kr.rs) {
			if t := render(r, nil); t != kr.text[i] {
				return fail("earlier rows", "row %d returned by operation %d was %s and is now %s", i, kr.op, kr.text[i], t), -1, false
			}
		}
	}
	if out.err == nil && len(res.Rows) > 0 && len(h.kept) < 25 {
		kr := keptRows{op: k, rs: res.rs}
		for _, r := range h.r.rows(res.rs) {
			kr.text = append(kr.text, render(r, nil))
		}
		h.kept = append(h.kept, kr)
	}
	return nil, -1, false
}

type graphSnap struct {
	nodes []SNode
	edges []SEdge
}

func multiset(l []string) map[string]int {
	m := map[string]int{}
	for _, x := range l {
		m[x]++
	}
	return m
}

func diffMultiset(want, got []string) string {
	a, b := multiset(want), multiset(got)
	var miss, extra []string
	for k, n := range a {
		if b[k] < n {
			miss = append(miss, fmt.Sprintf("%dx %s", n-b[k], k))
		}
	}
	for k, n := range b {
		if a[k] < n {
			extra = append(extra, fmt.Sprintf("%dx %s", n-a[k], k))
		}
	}
	if miss == nil && extra == nil {
		return ""
	}
	sort.Strings(miss)
	sort.Strings(extra)
	cut := func(l []string) string {
		if len(l) > 4 {
			l = append(l[:4:4], "...")
		}
		return strings.Join(l, " ; ")
	}
	return fmt.Sprintf("%d expected, %d found; missing: %s | unexpected: %s", len(want), len(got), cut(miss), cut(extra))
}

func logText(l []LogEntry, mp *mapping) []string {
	var out []string
	for _, e := range l {
		out = append(out, e.Name+renderV(e.Args, mp))
	}
	return out
}

// compareErr compares the way a statement ended
func compareErr(m *MWorld, merr error, r *RWorld, res *Result) string {
	var inj *injected
	if errors.As(merr, &inj) && inj.Panic {
		p, ok := res.Panic.(*injected)
		if !ok || p != r.lastInj || p.ID != inj.ID {
			return fmt.Sprintf("expected the panic %s of the callback, but it ended with panic %v, error %v", inj.ID, res.Panic, res.Err)
		}
		return ""
	}
	if res.Panic != nil {
		return fmt.Sprintf("panic: %v (%s), expected error: %v", res.Panic, res.Stack, merr)
	}
	if merr == nil {
		if res.Err != nil {
			return fmt.Sprintf("unexpected error: %v", res.Err)
		}
		if res.NoSet {
			return "no result set"
		}
		return ""
	}
	if res.Err == nil {
		return fmt.Sprintf("no error, expected: %v", merr)
	}
	if len(res.rs.Rows) > 0 {
		return "result returned with an error"
	}
	if inj != nil {
		var got *injected
		if !errors.Is(res.Err, r.lastInj) || !errors.As(res.Err, &got) || got.ID != inj.ID {
			return fmt.Sprintf("the error is %v instead of %v", res.Err, merr)
		}
		return ""
	}
	var got *injected
	if errors.As(res.Err, &got) {
		return fmt.Sprintf("the error is %v instead of %v", res.Err, merr)
	}
	var ec errClass
	if errors.As(merr, &ec) {
		ok := true
		switch ec.class {
		case "ErrUnknownVariable":
			ok = errors.As(res.Err, &cy.ErrUnknownVariable{})
		case "ErrUnknownParameter":
			ok = errors.As(res.Err, &cy.ErrUnknownParameter{})
		case "ErrUnknownFunction":
			ok = errors.As(res.Err, &cy.ErrUnknownFunction{})
		case "ErrInvalidFunctionCall":
			ok = errors.As(res.Err, &cy.ErrInvalidFunctionCall{})
		}
		if !ok {
			return fmt.Sprintf("the error is %v (%T) instead of %s", res.Err, res.Err, ec.class)
		}
	}
	return ""
}

// compare compares the outcome of a statement with that of the model. If
// they agree, the new elements are identified with those of the model,
// and the variables are set in the context of the model.
func (h *hist) compare(m *MWorld, out *modelOut, res *Result, rc *cy.EvalContext, snaps []graphSnap, before [][2]int) (what, detail string) {
	if d := compareErr(m, out.err, h.r, res); d != "" {
		if res.Err != nil && strings.HasPrefix(res.Err.Error(), "Syntax error") {
			// so that shrinking another violation does not end here
			return "rejected", d
		}
		return "outcome", d
	}
	// the other graphs
	for i := range snaps {
		if i == out.ctx.g {
			continue
		}
		if a, b := dumpModel(m.graphs[i]), canonSnapshot(h.r, snaps[i]); a != b {
			return "graph", fmt.Sprintf("another graph changed: %s instead of %s", b, a)
		}
	}
	first := ""
	firstWhat := ""
	check := func(mp *mapping) bool {
		w, d := h.compareRest(m, out, res, rc, mp)
		if w != "" && first == "" {
			first, firstWhat = d, w
		}
		return w == ""
	}
	mp, d := h.identify(m, m.graphs[out.ctx.g], snaps[out.ctx.g], before[out.ctx.g], check)
	if mp == nil {
		if first != "" {
			return firstWhat, first
		}
		return "graph", d
	}
	return "", ""
}

func (h *hist) compareRest(m *MWorld, out *modelOut, res *Result, rc *cy.EvalContext, mp *mapping) (what, detail string) {
	if out.err == nil {
		var got, want []string
		for _, r := range res.Rows {
			got = append(got, render(r, mp))
		}
		if out.sel != nil {
			for _, r := range out.sel.from {
				want = append(want, render(r, nil))
			}
			if len(got) != out.sel.n {
				return "rows", fmt.Sprintf("%d rows instead of %d", len(got), out.sel.n)
			}
			have := multiset(want)
			for _, g := range got {
				if have[g]--; have[g] < 0 {
					return "rows", "row is not one of the rows to select from: " + g
				}
			}
		} else {
			for _, r := range out.rows {
				want = append(want, render(r, nil))
			}
			if d := diffMultiset(want, got); d != "" {
				return "rows", d
			}
		}
	}
	if d := diffMultiset(logText(m.fnLog, nil), logText(h.r.fnLog, mp)); d != "" {
		return "calls", "function calls: " + d
	}
	if d := diffMultiset(logText(m.fltLog, nil), logText(h.r.fltLog, mp)); d != "" {
		return "filter", "filter calls: " + d
	}
	// variables of the calling context
	mc := out.ctx
	vars := Row{}
	for k, v := range mc.vars {
		vars[k] = v
	}
	if out.err == nil {
		got := Row{}
		for k, v := range rc.GetVarsNearestScope() {
			got[k] = h.r.value(v)
		}
		later := map[string]bool{}
		for i := len(m.layers) - 1; i >= 0; i-- {
			var chosen Row
			for _, cand := range m.layers[i] {
				ok := true
				for k, v := range cand {
					if !later[k] && renderV(v, nil) != renderV(got[k], mp) {
						ok = false
						break
					}
				}
				if ok {
					chosen = cand
					break
				}
			}
			if chosen == nil {
				return "variables", fmt.Sprintf("the variables {%s} are not those of a row", render(got, mp))
			}
			for k, v := range chosen {
				if !later[k] {
					vars[k] = v
					later[k] = true
				}
			}
		}
		// they are those of the last row returned
		s := h.c.Stmts
		if n := len(res.Rows); n > 0 && len(m.layers) > 0 && len(s) > 0 {
			last := res.Rows[n-1]
			if q := m.lastReturn; q != nil {
				for i, p := range q.Proj {
					if p.E.Op != "var" {
						continue
					}
					key := p.As
					if key == "" {
						key = fmt.Sprint(i + 1)
					}
					if !later[p.E.N] {
						continue
					}
					if a, b := renderV(last[key], mp), renderV(vars[p.E.N], nil); a != b {
						return "variables", fmt.Sprintf("variable %s is %s, but %s in the last row returned", p.E.N, b, a)
					}
				}
			}
		}
	}
	saved := mc.vars
	mc.vars = vars
	if d := h.context(mc, rc, mp); d != "" {
		mc.vars = saved
		return "variables", d
	}
	return "", ""
}

func canonSnapshot(w *RWorld, s graphSnap) string {
	n := append([]SNode{}, s.nodes...)
	e := append([]SEdge{}, s.edges...)
	sort.Slice(n, func(i, j int) bool { return w.nodeID(n[i].n) < w.nodeID(n[j].n) })
	sort.Slice(e, func(i, j int) bool { return w.edgeID(e[i].e) < w.edgeID(e[j].e) })
	return dumpSnapshot(w, n, e)
}

// identify finds the elements of the model the new elements of the graph
// correspond to, such that check holds
func (h *hist) identify(m *MWorld, g *MGraph, s graphSnap, before [2]int, check func(*mapping) bool) (*mapping, string) {
	mismatch := func() string {
		return fmt.Sprintf("graph is %s\n  instead of %s", canonSnapshot(h.r, s), dumpModel(g))
	}
	var rn []SNode
	var re []SEdge
	knownN, knownE := 0, 0
	for _, n := range s.nodes {
		id, ok := h.r.nodes[n.n]
		if !ok {
			rn = append(rn, n)
			continue
		}
		knownN++
		if g.Nodes[id].Deleted || descNode(g.Nodes[id]) != n.desc {
			return nil, mismatch()
		}
	}
	for _, e := range s.edges {
		id, ok := h.r.edges[e.e]
		if !ok {
			re = append(re, e)
			continue
		}
		knownE++
		x := g.Edges[id]
		if x.Deleted || descEdge(x) != e.desc || h.r.nodes[e.from] != x.From || h.r.nodes[e.to] != x.To {
			return nil, mismatch()
		}
	}
	var mn []*MNode
	var me []*MEdge
	for _, n := range g.Nodes {
		if !n.Deleted {
			if n.ID < before[0] {
				knownN--
			} else {
				mn = append(mn, n)
			}
		}
	}
	for _, e := range g.Edges {
		if !e.Deleted {
			if e.ID < before[1] {
				knownE--
			} else {
				me = append(me, e)
			}
		}
	}
	if knownN != 0 || knownE != 0 || len(mn) != len(rn) || len(me) != len(re) {
		return nil, mismatch()
	}
	sort.Slice(rn, func(i, j int) bool { return rn[i].n.GetID() < rn[j].n.GetID() })
	sort.Slice(re, func(i, j int) bool { return re[i].e.GetID() < re[j].e.GetID() })
	commit := func(mp *mapping) *mapping {
		for _, n := range rn {
			h.r.nodes[n.n] = mp.nodes[int(h.r.nodeID(n.n))]
		}
		for _, e := range re {
			h.r.edges[e.e] = mp.edges[h.r.edgeID(e.e)]
		}
		return mp
	}
	// refined descriptions
	colR := make([]string, len(rn))
	for i, n := range rn {
		var l []string
		for _, e := range re {
			for dir, end := range []*lpg.Node{e.from, e.to} {
				if end == n.n {
					o := e.to
					if dir == 1 {
						o = e.from
					}
					d := "?"
					if id, ok := h.r.nodes[o]; ok {
						d = fmt.Sprint(id)
					}
					l = append(l, fmt.Sprintf("%d%s%s", dir, e.desc, d))
				}
			}
		}
		sort.Strings(l)
		colR[i] = n.desc + strings.Join(l, "|")
	}
	colM := make([]string, len(mn))
	for i, n := range mn {
		var l []string
		for _, e := range me {
			for dir, end := range []int{e.From, e.To} {
				if end == n.ID {
					o := e.To
					if dir == 1 {
						o = e.From
					}
					d := "?"
					if o < before[0] {
						d = fmt.Sprint(o)
					}
					l = append(l, fmt.Sprintf("%d%s%s", dir, descEdge(e), d))
				}
			}
		}
		sort.Strings(l)
		colM[i] = descNode(n) + strings.Join(l, "|")
	}
	if diffMultiset(colM, colR) != "" {
		return nil, mismatch()
	}
	// refine the descriptions by those of the neighbours
	ixR := map[*lpg.Node]int{}
	for i, n := range rn {
		ixR[n.n] = i
	}
	ixM := map[int]int{}
	for i, n := range mn {
		ixM[n.ID] = i
	}
	type link struct {
		dir  int
		o    int // index of the other end
		desc string
	}
	linkR, linkM := make([][]link, len(rn)), make([][]link, len(mn))
	for _, e := range re {
		f, fok := ixR[e.from]
		t, tok := ixR[e.to]
		if fok && tok {
			linkR[f] = append(linkR[f], link{0, t, e.desc})
			linkR[t] = append(linkR[t], link{1, f, e.desc})
		}
	}
	for _, e := range me {
		f, fok := ixM[e.From]
		t, tok := ixM[e.To]
		if fok && tok {
			linkM[f] = append(linkM[f], link{0, t, descEdge(e)})
			linkM[t] = append(linkM[t], link{1, f, descEdge(e)})
		}
	}
	refine := func(col []string, links [][]link) []string {
		next := make([]string, len(col))
		for i := range col {
			var l []string
			for _, k := range links[i] {
				l = append(l, fmt.Sprintf("%d%s%x", k.dir, k.desc, hashStr(col[k.o])))
			}
			sort.Strings(l)
			next[i] = fmt.Sprintf("%x", hashStr(col[i]+"//"+strings.Join(l, "|")))
		}
		return next
	}
	for round := 0; round < 3; round++ {
		colR, colM = refine(colR, linkR), refine(colM, linkM)
		if diffMultiset(colM, colR) != "" {
			return nil, mismatch()
		}
	}
	mp := &mapping{nodes: map[int]int{}, edges: map[int]int{}}
	end := func(n *lpg.Node) int { return mp.node(int(h.r.nodeID(n))) }
	usedN := make([]bool, len(mn))
	usedE := make([]bool, len(me))
	asgn := make([]int, len(rn)) // real index -> model index
	back := make([]int, len(mn))
	for i := range asgn {
		asgn[i] = -1
	}
	for i := range back {
		back[i] = -1
	}
	// nodes connected to each other follow each other
	var order []int
	seen := make([]bool, len(rn))
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		order = append(order, i)
		for _, l := range linkR[i] {
			visit(l.o)
		}
	}
	for i := range rn {
		visit(i)
	}
	agree := func(i, j int) bool {
		var a, b []string
		for _, l := range linkR[i] {
			if asgn[l.o] >= 0 {
				a = append(a, fmt.Sprint(l.dir, asgn[l.o], l.desc))
			}
		}
		for _, l := range linkM[j] {
			if back[l.o] >= 0 {
				b = append(b, fmt.Sprint(l.dir, l.o, l.desc))
			}
		}
		return diffMultiset(a, b) == ""
	}
	checks, budget := 400, 20000
	var edge func(i int) bool
	edge = func(i int) bool {
		budget--
		if i == len(re) {
			checks--
			return check(mp)
		}
		e := re[i]
		for d := range me {
			j := (i + d) % len(me)
			x := me[j]
			if usedE[j] || x.From != end(e.from) || x.To != end(e.to) || descEdge(x) != e.desc {
				continue
			}
			if budget <= 0 || checks <= 0 {
				return false
			}
			usedE[j] = true
			mp.edges[h.r.edgeID(e.e)] = x.ID
			if edge(i + 1) {
				return true
			}
			usedE[j] = false
			delete(mp.edges, h.r.edgeID(e.e))
		}
		return false
	}
	var node func(n int) bool
	node = func(n int) bool {
		budget--
		if n == len(order) {
			return edge(0)
		}
		i := order[n]
		for d := range mn {
			j := (i + d) % len(mn)
			if usedN[j] || colM[j] != colR[i] {
				continue
			}
			if budget <= 0 || checks <= 0 {
				return false
			}
			usedN[j] = true
			asgn[i], back[j] = j, i
			if agree(i, j) {
				mp.nodes[int(h.r.nodeID(rn[i].n))] = mn[j].ID
				if node(n + 1) {
					return true
				}
				delete(mp.nodes, int(h.r.nodeID(rn[i].n)))
			}
			usedN[j] = false
			asgn[i], back[j] = -1, -1
		}
		return false
	}
	if node(0) {
		return commit(mp), ""
	}
	if budget <= 0 || checks <= 0 {
		m.inexact = true
	}
	return nil, mismatch()
}

func (h *hist) rel(k int, op *Op) *Violation {
	g := op.Graph % len(h.m.graphs)
	id, ok := h.setvarValue(op, &MCtx{g: g})
	if !ok {
		return nil
	}
	part := h.c.Parts[op.S]
	text := part.Text()
	m := h.m
	m.begin(nil)
	var want []string
	var merr error
	c := &MCtx{vars: map[string]V{"this": id}, params: map[string]V{}, g: g}
	dropped := protect(func() {
		p, err := m.pattern(c, part)
		if err != nil {
			merr = err
			return
		}
		m.matchPart(c, p, func(r Row) {
			if t, ok := r["target"]; ok {
				want = append(want, renderV(t, nil))
			}
		})
	})
	if dropped != "" {
		h.st.inc("dropped: "+dropped, 1)
		return nil
	}
	var start *lpg.Node
	for x, i := range h.r.nodes {
		if i == int(id.(NRef)) && x.GetGraph() == h.r.graphs[g] {
			start = x
		}
	}
	h.r.begin(nil)
	wrapped := h.r.wrappedValues()
	rt.StartCount(m.stepLimit())
	res := h.r.findRelative(text, op.Fresh, start)
	res.Steps = rt.Stop()
	h.st.inc("steps", int(res.Steps))
	fail := func(what, f string, a ...interface{}) *Violation {
		return &Violation{Op: k, What: what, Detail: fmt.Sprintf("%s\n  pattern: %s from node %v of graph %d", fmt.Sprintf(f, a...), text, id, g)}
	}
	if sl, ok := res.Panic.(rt.StepLimit); ok {
		return fail("termination", "the search did not end within %d steps", sl.Steps)
	}
	if d, ok := res.Panic.(rt.Deadlock); ok {
		return fail("deadlock", "the search waits for itself: %s", d.Msg)
	}
	if d := compareErr(m, merr, h.r, res); d != "" {
		return fail("outcome", "%s", d)
	}
	var got []string
	for _, n := range res.Nodes {
		got = append(got, renderV(h.r.nodeID(n), nil))
		if n.GetGraph() != h.r.graphs[g] {
			return fail("nodes", "node of another graph")
		}
	}
	if merr == nil {
		if d := diffMultiset(want, got); d != "" {
			return fail("nodes", "%s", d)
		}
	}
	for i, g := range h.r.graphs {
		n, e, p := h.r.snapshot(g)
		if p != "" {
			return fail("consistency", "graph %d is inconsistent: %s", i, p)
		}
		if a, b := dumpModel(m.graphs[i]), canonSnapshot(h.r, graphSnap{n, e}); a != b {
			return fail("graph", "the search changed graph %d: %s instead of %s", i, b, a)
		}
	}
	if n := h.r.wrappedValues(); n != wrapped {
		return fail("graph", "the search changed the graphs: %d instead of %d property values are objects with a native value", n, wrapped)
	}
	for _, kn := range h.r.keptNodes {
		if kn.changed() {
			return fail("earlier nodes", "the nodes found by operation %d are others now", kn.op)
		}
	}
	if len(res.Nodes) > 0 && len(h.r.keptNodes) < 25 {
		h.r.keptNodes = append(h.r.keptNodes, keepNodes(k, res.Nodes))
	}
	h.st.trace(hashStr(strings.Join(got, " ")))
	h.st.evaluation(hashStr(h.dump(m)+text+string(mustJSON(op))), len(got) > 0)
	h.st.inc("searches", 1)
	h.st.inc("targets", len(got))
	return nil
}
