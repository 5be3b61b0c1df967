package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	"verif.sim/rt"
)

// Map order cases: the same history runs once for each of several orders
// of map iteration. Every operation has the same outcome in all of them.
// The model only tells which statements have a meaning that does not
// depend on the order of rows: it evaluates them for several orders of the
// rows.

type mapOrder struct {
	policy int
	seed   uint64
}

// colours describes the elements of a graph independently of the order in
// which they were created: elements of the initial graph by their number,
// new ones by their contents and neighbourhood
type colours struct {
	mapping
	text string
}

type wlNode struct {
	id   int
	desc string
}

type wlEdge struct {
	id, from, to int
	desc         string
}

func colour(nodes []wlNode, edges []wlEdge, isNewN, isNewE func(int) bool) *colours {
	const base = 1000000
	c := &colours{mapping: mapping{nodes: map[int]int{}, edges: map[int]int{}}}
	col := map[int]uint64{}
	for _, n := range nodes {
		t := n.desc
		if !isNewN(n.id) {
			t = fmt.Sprint(n.id, " ", n.desc)
		}
		col[n.id] = hashStr(t)
	}
	for round := 0; round < 5; round++ {
		links := map[int][]string{}
		for _, e := range edges {
			links[e.from] = append(links[e.from], fmt.Sprintf("o%s%x", e.desc, col[e.to]))
			links[e.to] = append(links[e.to], fmt.Sprintf("i%s%x", e.desc, col[e.from]))
		}
		next := map[int]uint64{}
		for _, n := range nodes {
			l := links[n.id]
			sort.Strings(l)
			next[n.id] = hashStr(fmt.Sprintf("%x %s", col[n.id], strings.Join(l, "|")))
		}
		col = next
	}
	var l []string
	for _, n := range nodes {
		l = append(l, fmt.Sprintf("%s#%x", n.desc, col[n.id]))
		if isNewN(n.id) {
			c.mapping.nodes[n.id] = base + int(col[n.id]>>20)
		}
	}
	for _, e := range edges {
		h := hashStr(fmt.Sprintf("%s %x %x", e.desc, col[e.from], col[e.to]))
		id := ""
		if isNewE(e.id) {
			c.mapping.edges[e.id] = base + int(h>>20)
		} else {
			id = fmt.Sprint(e.id)
		}
		l = append(l, fmt.Sprintf("%s%s@%x", id, e.desc, h))
	}
	sort.Strings(l)
	c.text = fmt.Sprintf("%x", hashStr(strings.Join(l, "\n")))
	return c
}

func (w *RWorld) colours(g int) (*colours, string, string) {
	n, e, p := w.snapshot(w.graphs[g])
	var ns []wlNode
	var es []wlEdge
	for _, x := range n {
		ns = append(ns, wlNode{int(w.nodeID(x.n)), x.desc})
	}
	for _, x := range e {
		es = append(es, wlEdge{w.edgeID(x.e), int(w.nodeID(x.from)), int(w.nodeID(x.to)), x.desc})
	}
	neg := func(i int) bool { return i < 0 }
	return colour(ns, es, neg, neg), p, canonSnapshot(w, graphSnap{n, e})
}

func (h *mapsRun) modelColours(m *MWorld, g int) *colours {
	var ns []wlNode
	var es []wlEdge
	x := m.graphs[g]
	for _, n := range x.Nodes {
		if !n.Deleted {
			ns = append(ns, wlNode{n.ID, descNode(n)})
		}
	}
	for _, e := range x.Edges {
		if !e.Deleted {
			es = append(es, wlEdge{e.ID, e.From, e.To, descEdge(e)})
		}
	}
	gs := h.c.Graphs[g]
	return colour(ns, es, func(i int) bool { return i >= len(gs.Nodes) }, func(i int) bool { return i >= len(gs.Edges) })
}

type mapsRun struct {
	c      *Case
	st     *Stats
	m      *MWorld
	worlds []*RWorld
}

// outcome of the model for one order of the rows
func (h *mapsRun) modelOutcome(op *Op, shuffle *rng) (m *MWorld, text, dropped string) {
	m = h.m.clone()
	m.shuffle = shuffle
	hh := &hist{c: h.c, m: m, st: h.st}
	out := hh.modelStmt(m, op)
	if out.dropped != "" {
		return m, "", out.dropped
	}
	c := h.modelColours(m, out.ctx.g)
	text = c.text
	if out.err != nil {
		if m.rowsMax > 1 && h.c.Stmts[op.S].hasUpdates() {
			return m, "", "failure after some of the rows"
		}
		text += " error"
	} else {
		if out.sel != nil {
			return m, "", "selection of rows"
		}
		var l []string
		for _, r := range out.rows {
			l = append(l, render(r, &c.mapping))
		}
		sort.Strings(l)
		text += strings.Join(l, " ; ")
	}
	return m, text, ""
}

func (w *RWorld) mapsOutcome(op *Op, res *Result, g int) (key, show, problem string) {
	c, p, snap := w.colours(g)
	if p != "" {
		return "", "", p
	}
	var l []string
	switch {
	case res.Panic != nil:
		l = append(l, fmt.Sprintf("panic %v", res.Panic))
	case res.Err != nil:
		l = append(l, "error")
	case res.IsRel:
		for _, n := range res.Nodes {
			l = append(l, renderV(w.nodeID(n), &c.mapping))
		}
	default:
		for _, r := range w.rows(res.rs) {
			l = append(l, render(r, &c.mapping))
		}
	}
	sort.Strings(l)
	show = fmt.Sprintf("%d: %s err %v, graph %s", len(l), strings.Join(l, " ; "), res.Err, snap)
	return c.text + strings.Join(l, " ; "), show, ""
}

func runMaps(c *Case, st *Stats) *Violation {
	setupRun(c)
	orders := []mapOrder{{rt.MapSorted, 0}, {rt.MapReverse, 0}, {rt.MapHashed, c.MapSeed}, {rt.MapVarying, c.MapSeed}}
	h := &mapsRun{c: c, st: st, m: newMWorld(c, st)}
	for _, o := range orders {
		rt.SetMapOrder(o.policy, o.seed)
		h.worlds = append(h.worlds, newRWorld(c))
	}
	if c.preparsed() {
		// parsing takes most of the time
		shared := concParse(c)
		for _, w := range h.worlds {
			w.shared = shared
		}
	}
	for k := range c.Ops {
		op := &c.Ops[k]
		if op.Ctx >= len(c.Ctxs) {
			continue
		}
		switch op.Kind {
		case "stmt":
			if op.S >= len(c.Stmts) {
				continue
			}
		case "rel":
			if op.S >= len(c.Parts) || op.Node == nil {
				continue
			}
		default:
			continue
		}
		st.inc("ops", 1)
		g := c.Ctxs[op.Ctx].Graph
		var next *MWorld
		want := ""
		node := -1
		if op.Kind == "rel" {
			g = op.Graph % len(c.Graphs)
			node = h.initialNode(g, *op.Node)
			if node < 0 {
				continue
			}
			if dropped := h.largeSearch(g, node, c.Parts[op.S]); dropped != "" {
				st.inc("dropped: "+dropped, 1)
				continue
			}
		} else {
			var dropped string
			next, want, dropped = h.modelOutcome(op, nil)
			r := &rng{c.Seed}
			for i := 0; dropped == "" && next.rowsMax > 1 && i < 6; i++ {
				rr := &rng{r.next()}
				if i == 0 {
					rr = &rng{reverseOrder}
				}
				_, o, d := h.modelOutcome(op, rr)
				if d != "" {
					dropped = d
				} else if o != want {
					dropped = "depends on the order of rows"
				}
			}
			if dropped != "" {
				st.inc("dropped: "+dropped, 1)
				continue
			}
		}
		text := ""
		var keys, shows []string
		for i, w := range h.worlds {
			rt.SetMapOrder(orders[i].policy, mix(orders[i].seed, uint64(k)))
			var res *Result
			worlds[0] = w
			w.begin(nil)
			w.curG = g
			if op.Kind == "stmt" {
				text = c.Stmts[op.S].Text()
				rc := w.ctxs[op.Ctx].SubContext()
				w.setParams(rc, op.Params)
				rt.StartCount(2 * next.stepLimit())
				res = w.evalStmt(text, op.Fresh, rc)
			} else {
				text = c.Parts[op.S].Text()
				var start *lpg.Node
				for n, id := range w.nodes {
					if id == node && n.GetGraph() == w.graphs[g] {
						start = n
					}
				}
				rt.StartCount(2 * h.m.stepLimit())
				res = w.findRelative(text, op.Fresh, start)
			}
			if _, ok := res.Panic.(rt.StepLimit); ok && op.Kind != "stmt" {
				// there is no bound for them
				rt.Stop()
				text = ""
				break
			}
			st.inc("steps", int(rt.Stop()))
			st.inc("map iterations ordered by the simulator", int(rt.MapIters()))
			key, show, problem := w.mapsOutcome(op, res, g)
			if problem != "" {
				st.inc("given up: graph is inconsistent", 1)
				return nil
			}
			if res.Panic != nil {
				st.inc("panics", 1)
				st.sample(fmt.Sprint(res.Panic, res.Stack, text))
			}
			keys, shows = append(keys, key), append(shows, show)
		}
		if text == "" {
			st.inc("dropped: large search", 1)
			continue
		}
		st.inc("statements", 1)
		for i := 1; i < len(keys); i++ {
			if keys[i] == keys[0] {
				continue
			}
			if op.Kind == "stmt" && next.rowsMax > 1 && h.orderMatters(op, want) {
				st.inc("given up: depends on the order of rows", 1)
				return nil
			}
			return &Violation{Op: k, What: "order", Detail: fmt.Sprintf("the outcome depends on the order of map iteration: with order %v it is\n    %s\n  and with order %v\n    %s\n  statement: %s", orders[0], shows[0], orders[i], shows[i], text)}
		}
		// if the code does something else than the model, the model
		// cannot tell any longer what depends on the order of rows
		if op.Kind == "stmt" {
			c0, _, _ := h.worlds[0].colours(g)
			if c0.text != h.modelColours(next, g).text {
				st.inc("given up: graph differs from the model", 1)
				st.sample(fmt.Sprint("DIFF ", text, shows[0], dumpModel(next.graphs[g])))
				return nil
			}
			h.m = next
		}
		st.trace(hashStr(keys[0]))
		st.S.add(hashStr(keys[0]))
		st.evaluation(hashStr(text+keys[0]), len(keys[0]) > 17)
	}
	return nil
}

// orderMatters tries many orders of the rows
func (h *mapsRun) orderMatters(op *Op, want string) bool {
	r := &rng{h.c.Seed ^ 77}
	for i := 0; i < 400; i++ {
		_, o, d := h.modelOutcome(op, &rng{r.next()})
		if d != "" || o != want {
			return true
		}
	}
	return false
}

// largeSearch evaluates a search in the model, which gives up large ones,
// and tells how many steps it may take
func (h *mapsRun) largeSearch(g, node int, part Part) string {
	m := h.m
	m.begin(nil)
	return protect(func() {
		c := &MCtx{vars: map[string]V{"this": NRef(node)}, params: map[string]V{}, g: g}
		if p, err := m.pattern(c, part); err == nil {
			m.matchPart(c, p, func(Row) {})
		}
	})
}

// initialNode selects one of the initial nodes that still exist
func (h *mapsRun) initialNode(g, k int) int {
	var l []int
	for i := range h.c.Graphs[g].Nodes {
		if !h.m.graphs[g].Nodes[i].Deleted {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1
	}
	return l[k%len(l)]
}

func genMaps(variant string, seed uint64) *Case {
	p := profileOf("C05")
	if variant == "unions" { // rows of small graphs are often equal
		p.Read, p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Union, p.Value, p.Bad = 10, 14, 6, 4, 0, 0, 60, 4, 0
		p.Stmts, p.MaxN, p.MaxE, p.RelStmts, p.Rel = 6, 4, 4, 0, 0
	}
	c := genHist("C05", seed, p)
	c.Kind = "maps"
	if (&rng{seed ^ 5}).p(85) {
		c.Share = 2
	}
	for i := range c.Ops {
		c.Ops[i].Sub = true
	}
	return c
}
