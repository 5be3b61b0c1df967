package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

// Concurrent cases: several sessions, each a thread of the simulator,
// run their operations. A session obtains the same results as if it had
// run alone. Sessions have their own contexts. They have their own graphs
// (C01, C04), or share one that nobody modifies (C02, C04).

// sessionLog is what a session observed
type sessionLog struct {
	limit uint64 // the session ends after these steps
	ops   []string
	graph string
	world *RWorld
}

func (c *Case) sharedGraph() bool { return c.Share&1 != 0 }
func (c *Case) preparsed() bool   { return c.Share&2 != 0 }

// ownParsed: every session has its own statements, parsed before they
// start
func (c *Case) ownParsed() bool { return c.Share&4 != 0 }

// concWorlds builds the worlds of the sessions
func concWorlds(c *Case, parsed concParsed) []*RWorld {
	var r []*RWorld
	var graphs []*lpg.Graph
	for i := range c.Session {
		var w *RWorld
		if c.sharedGraph() && i > 0 {
			w = newRWorldOn(c, graphs, r[0].nodes, r[0].edges)
		} else {
			w = newRWorldOn(c, nil, nil, nil)
			graphs = w.graphs
		}
		w.shared = parsed.shared
		if c.ownParsed() {
			w.shared = parsed.own[i]
		}
		w.onStall = rt.Stall
		r = append(r, w)
	}
	return r
}

// concParsed are the statements parsed before the sessions start
type concParsed struct {
	shared *sharedParse
	own    []*sharedParse
}

func (c *Case) parseBefore() (p concParsed) {
	if c.preparsed() {
		p.shared = concParse(c)
	}
	if c.ownParsed() {
		for range c.Session {
			p.own = append(p.own, concParse(c))
		}
	}
	return p
}

// concParse parses the statements of the case before the sessions start
func concParse(c *Case) *sharedParse {
	s := &sharedParse{stmts: map[string]parsedStmt{}, parts: map[string]parsedPart{}}
	for _, x := range c.Stmts {
		t := x.Text()
		e, err := cy.Parse(t)
		s.stmts[t] = parsedStmt{e, err}
	}
	for _, x := range c.Nested {
		t := x.Text()
		e, err := cy.Parse(t)
		s.stmts[t] = parsedStmt{e, err}
	}
	for _, t := range c.Texts {
		e, err := cy.Parse(t)
		s.stmts[t] = parsedStmt{e, err}
	}
	for _, x := range c.Parts {
		t := x.Text()
		p, err := cy.ParsePatternExpr(t)
		s.parts[t] = parsedPart{p, err}
	}
	return s
}

// session runs the operations of one session
func (w *RWorld) session(c *Case, ops []int, log *sessionLog) {
	for _, k := range ops {
		if k >= len(c.Ops) {
			continue
		}
		log.ops = append(log.ops, w.sessionOp(c, &c.Ops[k]))
		for _, k := range w.keptNodes {
			if k.changed() {
				log.ops[len(log.ops)-1] += fmt.Sprintf(" and the nodes found by search %d of the session are others now", k.op)
				break
			}
		}
		if log.limit > 0 && rt.Steps() >= log.limit {
			return
		}
	}
}

func (w *RWorld) digest(res *Result, ctx *cy.EvalContext) string {
	var b strings.Builder
	switch {
	case res.Panic != nil:
		if i, ok := res.Panic.(*injected); ok {
			fmt.Fprintf(&b, "panic %s", i.ID)
		} else {
			fmt.Fprintf(&b, "panic %v at %s", res.Panic, res.Stack)
		}
	case res.Err != nil:
		fmt.Fprintf(&b, "error %v", res.Err)
	case res.IsRel:
		var l []string
		for _, n := range res.Nodes {
			l = append(l, renderV(w.nodeID(n), nil))
		}
		sort.Strings(l)
		fmt.Fprintf(&b, "nodes %v", l)
	default:
		var l []string
		for _, r := range w.rows(res.rs) {
			l = append(l, render(r, nil))
		}
		sort.Strings(l)
		fmt.Fprintf(&b, "%d rows %s", len(l), strings.Join(l, " ; "))
	}
	if ctx != nil {
		vars := Row{}
		scope := ctx.GetVarsNearestScope()
		for _, k := range inOrder(scope) {
			vars[k] = w.value(scope[k])
		}
		fmt.Fprintf(&b, " vars {%s}", render(vars, nil))
	}
	if len(w.fnLog) > 0 {
		fmt.Fprintf(&b, " calls %v", logText(w.fnLog, nil))
	}
	if len(w.fltLog) > 0 {
		l := logText(w.fltLog, nil)
		sort.Strings(l)
		fmt.Fprintf(&b, " filter %v", l)
	}
	return b.String()
}

func (w *RWorld) sessionOp(c *Case, op *Op) string {
	if op.Ctx >= len(w.ctxs) {
		return ""
	}
	ctx := w.ctxs[op.Ctx]
	switch op.Kind {
	case "setvar":
		if op.Val != nil {
			ctx.SetVar(op.Name, w.given(native(op.Val.rt())))
		}
		return ""
	case "rmvar":
		ctx.RemoveVar(op.Name)
		return ""
	case "setparam":
		ctx.SetParameter("$"+op.Name, w.given(native(op.Val.rt())))
		return ""
	case "reg":
		// a function nobody calls
		if op.Fn != nil {
			registerFn(*op.Fn)
		}
		return ""
	case "stmt":
		if op.S >= len(c.Stmts) {
			return ""
		}
		x := ctx
		if op.Sub {
			x = ctx.SubContext()
		}
		w.setParams(x, op.Params)
		w.curG = c.Ctxs[op.Ctx].Graph
		w.begin(op.Faults)
		res := w.evalStmt(c.Stmts[op.S].Text(), op.Fresh, x)
		w.blockedOps()
		return w.digest(res, x)
	case "text":
		if op.S >= len(c.Texts) {
			return ""
		}
		x := ctx.SubContext()
		w.setParams(x, op.Params)
		w.begin(op.Faults)
		res := w.evalStmt(c.Texts[op.S], op.Fresh, x)
		return w.digest(res, x)
	case "rel":
		if op.S >= len(c.Parts) || op.Node == nil {
			return ""
		}
		g := w.graphs[op.Graph%len(w.graphs)]
		n := g.NumNodes()
		if n == 0 {
			return ""
		}
		k := *op.Node % n
		for it := g.GetNodes(); it.Next(); k-- {
			if k == 0 {
				w.begin(nil)
				res := w.findRelative(c.Parts[op.S].Text(), op.Fresh, it.Node())
				w.keptNodes = append(w.keptNodes, keepNodes(len(w.keptNodes), res.Nodes))
				return w.digest(res, nil)
			}
		}
	}
	return ""
}

func (w *RWorld) blockedOps() {}

func (w *RWorld) graphText() string {
	var b strings.Builder
	for _, g := range w.graphs {
		n, e, p := w.snapshot(g)
		if p != "" {
			b.WriteString("INCONSISTENT " + p + " ")
		}
		b.WriteString(canonSnapshot(w, graphSnap{n, e}))
		b.WriteString(" // ")
	}
	if n := w.wrappedValues(); n > 0 {
		fmt.Fprintf(&b, "%d wrapped values", n)
	}
	return b.String()
}

func (s *SchedSpec) config(limit uint64) rt.Config {
	c := rt.Config{Seed: s.Seed, Gap: s.Gap, Depth: s.Depth, SiteMod: s.SiteMod, Limit: limit, EstSteps: s.Est}
	switch s.Policy {
	case "random":
		c.Policy = rt.PolicyRandom
	case "pct":
		c.Policy = rt.PolicyPCT
	case "sites":
		c.Policy = rt.PolicySites
	case "replay":
		c.Policy = rt.PolicyReplay
		for _, x := range s.Switches {
			to, forced := int(x[1]), false
			if to >= 100 {
				to, forced = to-100, true
			}
			c.Switches = append(c.Switches, rt.Switch{Step: x[0], To: to, Forced: forced})
		}
	default:
		c.Policy = rt.PolicySequential
	}
	return c
}

func recorded(l []rt.Switch) [][2]uint64 {
	var r [][2]uint64
	for _, s := range l {
		to := uint64(s.To)
		if s.Forced {
			to += 100
		}
		r = append(r, [2]uint64{s.Step, to})
	}
	return r
}

// runConc runs a concurrent case under its schedules, and its sessions
// one after the other
func runConc(c *Case, st *Stats) *Violation {
	setupRun(c)
	if c.Map == rt.MapVarying {
		rt.SetMapOrder(rt.MapHashed, c.MapSeed)
	}
	parsed := c.parseBefore()
	type run struct {
		logs []*sessionLog
		out  rt.Outcome
	}
	var runs []run
	start := ""
	limit := uint64(24000000)
	for si := range c.Scheds {
		ws := concWorlds(c, parsed)
		if c.sharedGraph() && start == "" {
			start = ws[0].graphText()
		}
		logs := make([]*sessionLog, len(ws))
		var fs []func()
		for i := range ws {
			i := i
			worlds[i] = ws[i]
			logs[i] = &sessionLog{world: ws[i]}
			fs = append(fs, func() { ws[i].session(c, c.Session[i].Ops, logs[i]) })
		}
		conf := c.Scheds[si].config(limit)
		if conf.EstSteps == 0 && len(runs) > 0 {
			conf.EstSteps = runs[len(runs)-1].out.Steps
		}
		out := rt.Run(conf, fs...)
		c.Scheds[si].recorded = recorded(out.Switches)
		c.Scheds[si].steps = out.Steps
		st.trace(out.Hash)
		st.inc("schedules", 1)
		st.inc("policy "+c.Scheds[si].Policy, 1)
		st.inc("steps", int(out.Steps))
		st.inc("context switches", len(out.Switches)-1)
		st.distinct("interleavings", out.Hash)
		st.evaluation(hashStr(fmt.Sprint(c.Seed))^out.Hash, len(out.Switches) > len(fs))
		for _, w := range ws {
			st.inc("fault stall", w.stalls)
			st.inc("fault nested evaluation", w.nests)
		}
		if v := concOutcome(si, out, ws); v != nil {
			if out.StepLimit && aloneIsLong(c, parsed, limit/8) {
				// there is that much to do, as with long patterns
				// of unbounded length
				st.inc("cases given up, too long", 1)
				return nil
			}
			return v
		}
		runs = append(runs, run{logs, out})
	}
	if c.NoRef {
		return nil
	}
	// every session alone
	ws := concWorlds(c, parsed)
	for i := range ws {
		log := &sessionLog{world: ws[i]}
		worlds[0] = ws[i]
		ws[i].onStall = nil
		rt.StartCount(2 * limit)
		ws[i].session(c, c.Session[i].Ops, log)
		rt.Stop()
		alone := ws[i].graphText()
		if c.sharedGraph() && alone != start {
			return &Violation{Op: i, What: "shared graph", Detail: fmt.Sprintf("a session that only reads changed the graph: %s instead of %s", alone, start)}
		}
		for si, r := range runs {
			for k := range log.ops {
				st.inc("operations compared", 1)
				if k >= len(r.logs[i].ops) || r.logs[i].ops[k] != log.ops[k] {
					got := "nothing"
					if k < len(r.logs[i].ops) {
						got = r.logs[i].ops[k]
					}
					return &Violation{Op: i, Sched: si, What: "isolation", Detail: fmt.Sprintf("schedule %d, session %d: operation %d returns\n    %s\n  and alone\n    %s\n  %s", si, i, k, got, log.ops[k], c.opText(c.Session[i].Ops[k]))}
				}
				if log.ops[k] != "" {
					st.inc("rows returned", strings.Count(log.ops[k], " ; "))
				}
			}
			if g := r.logs[i].world.graphText(); g != alone {
				return &Violation{Op: i, Sched: si, What: "isolation", Detail: fmt.Sprintf("schedule %d, session %d: the graph is\n    %s\n  and alone\n    %s", si, i, g, alone)}
			}
		}
		st.trace(hashStr(alone + strings.Join(log.ops, "\n")))
		st.S.add(hashStr(alone + strings.Join(log.ops, "\n")))
	}
	return nil
}

// aloneIsLong returns whether the sessions, one after the other, take
// more than a number of steps
func aloneIsLong(c *Case, parsed concParsed, limit uint64) bool {
	ws := concWorlds(c, parsed)
	left := limit
	for i := range ws {
		log := &sessionLog{world: ws[i], limit: left}
		worlds[0] = ws[i]
		ws[i].onStall = nil
		var p interface{}
		func() {
			defer func() { p = recover() }()
			rt.StartCount(left)
			ws[i].session(c, c.Session[i].Ops, log)
		}()
		n := rt.Steps()
		rt.Stop()
		if n >= left || p != nil {
			return true
		}
		left -= n
	}
	return false
}

func (c *Case) opText(k int) string {
	if k >= len(c.Ops) {
		return ""
	}
	op := &c.Ops[k]
	switch op.Kind {
	case "stmt":
		if op.S < len(c.Stmts) {
			return "statement: " + c.Stmts[op.S].Text()
		}
	case "rel":
		if op.S < len(c.Parts) {
			return "pattern: " + c.Parts[op.S].Text()
		}
	case "text":
		if op.S < len(c.Texts) {
			if len(op.Params) > 0 {
				return "statement: " + c.Texts[op.S] + " with " + string(mustJSON(op.Params))
			}
			return "statement: " + c.Texts[op.S]
		}
	}
	return string(mustJSON(op))
}

func concOutcome(si int, out rt.Outcome, ws []*RWorld) *Violation {
	v := func(what, f string, a ...interface{}) *Violation {
		return &Violation{Sched: si, What: what, Detail: fmt.Sprintf("schedule %d: ", si) + fmt.Sprintf(f, a...)}
	}
	if out.Races > 0 {
		return v("race", "%d data races", out.Races)
	}
	if out.Deadlock {
		return v("deadlock", "the sessions cannot continue")
	}
	if out.StepLimit {
		return v("termination", "the sessions did not end within %d steps", out.Steps)
	}
	for i, w := range ws {
		if w.blocked {
			return v("blocked", "session %d stalls in a callback, and other sessions cannot continue until it returns", i)
		}
	}
	for i, p := range out.Panics {
		if _, ok := p.(rt.Aborted); p != nil && !ok {
			return v("panic", "session %d panics: %v", i, p)
		}
	}
	return nil
}
