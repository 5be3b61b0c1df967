package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

// RWorld is the state of the code under test for one history
type RWorld struct {
	keptNodes []keptNodes
	c         *Case
	graphs    []*lpg.Graph
	ctxs      []*cy.EvalContext
	nodes     map[*lpg.Node]int
	edges     map[*lpg.Edge]int
	// parsed statements and patterns by text
	parsed map[string]parsedStmt
	parts  map[string]parsedPart
	shared *sharedParse
	// extra yields while a callback runs
	onStall func() bool

	// of the current operation
	faults  []Fault
	counts  map[string]int
	fired   []Fault
	fnLog   []LogEntry
	fltLog  []LogEntry
	lastInj *injected
	curG    int
	quiet   bool
	depth   int
	stalls  int
	nests   int
	blocked bool
}

type parsedStmt struct {
	e   cy.Evaluatable
	err error
}

type parsedPart struct {
	p   cy.PatternPart
	err error
}

// sharedParse holds statements parsed before the sessions start
type sharedParse struct {
	stmts map[string]parsedStmt
	parts map[string]parsedPart
}

// worlds of the simulated threads
var worlds [16]*RWorld

//go:norace
func currentWorld() *RWorld { return worlds[rt.Current()] }

// runSuffix makes the names of functions that are registered in the
// middle of a history unique in the process
var runSuffix = 0

func fnName(n string) string {
	if strings.HasPrefix(n, "late") {
		return n + "_" + strconv.Itoa(runSuffix)
	}
	return n
}

func native(v V) interface{} {
	switch x := v.(type) {
	case Nat:
		switch x.K {
		case "i8":
			return int8(x.I)
		case "i16":
			return int16(x.I)
		case "i32":
			return int32(x.I)
		case "i64":
			return int64(x.I)
		case "u8":
			return uint8(x.I)
		case "u16":
			return uint16(x.I)
		case "u32":
			return uint32(x.I)
		}
		return float32(x.I) + 0.5
	case []V:
		l := make([]cy.Value, 0, len(x))
		for _, y := range x {
			l = append(l, cy.RValue{Value: native(y)})
		}
		return l
	case map[string]V:
		m := make(map[string]cy.Value)
		for k, y := range x {
			m[k] = cy.RValue{Value: native(y)}
		}
		return m
	}
	return v
}

func nativeProps(m map[string]Val, wrap bool) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		v := v
		r[k] = native(v.rt())
		if wrap {
			r[k] = &wrapped{r[k]}
		}
	}
	return r
}

// wrapped is a property value of the application, that has a native value
type wrapped struct{ v interface{} }

func (w *wrapped) GetNativeValue() interface{} { return w.v }

// stored returns the property value
func (w *RWorld) stored(v interface{}) V {
	if x, ok := v.(*wrapped); ok {
		return w.native(x.v)
	}
	return w.native(v)
}

func newRWorld(c *Case) *RWorld { return newRWorldOn(c, nil, nil, nil) }

// newRWorldOn makes a world with new graphs, or on the given ones
func newRWorldOn(c *Case, graphs []*lpg.Graph, nodes map[*lpg.Node]int, edges map[*lpg.Edge]int) *RWorld {
	w := &RWorld{c: c, nodes: nodes, edges: edges, graphs: graphs, parsed: map[string]parsedStmt{}, parts: map[string]parsedPart{}}
	if graphs == nil {
		w.nodes, w.edges = map[*lpg.Node]int{}, map[*lpg.Edge]int{}
		for _, gs := range c.Graphs {
			g := lpg.NewGraph()
			var l []*lpg.Node
			for i, n := range gs.Nodes {
				x := g.NewNode(n.Labels, nativeProps(n.Props, c.Wrap&1 != 0))
				w.nodes[x] = i
				l = append(l, x)
			}
			for i, e := range gs.Edges {
				w.edges[g.NewEdge(l[e.From], l[e.To], e.Label, nativeProps(e.Props, c.Wrap&1 != 0))] = i
			}
			w.graphs = append(w.graphs, g)
		}
	}
	for _, cs := range c.Ctxs {
		var x *cy.EvalContext
		if cs.Parent >= 0 && cs.Parent < len(w.ctxs) {
			x = w.ctxs[cs.Parent].SubContext()
		} else {
			x = cy.NewEvalContext(w.graphs[cs.Graph])
			if cs.Filter {
				x.PropertyValueFromNativeFilter = w.filter
			}
		}
		w.setParams(x, cs.Params)
		w.ctxs = append(w.ctxs, x)
	}
	return w
}

func (w *RWorld) setParams(x *cy.EvalContext, p map[string]Val) {
	for _, k := range sortedVals(p) {
		v := p[k]
		x.SetParameter("$"+k, w.given(native(v.rt())))
	}
}

// inOrder returns the keys in order: looking at the values of the code
// under test takes steps, so everything has to be done in the same order
// in every run
func inOrder[T any](m map[string]T) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sortedVals(m map[string]Val) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func registerFn(d FnDef) {
	f := cy.Function{Name: fnName(d.Name), MinArgs: d.Min, MaxArgs: d.Max}
	if d.ByValue {
		f.ValueFunc = func(ctx *cy.EvalContext, args []cy.Value) (cy.Value, error) {
			return currentWorld().call(d, ctx, args)
		}
	} else {
		f.Func = func(ctx *cy.EvalContext, args []cy.Evaluatable) (cy.Value, error) {
			vals := make([]cy.Value, 0, len(args))
			if d.Twice {
				// the arguments are evaluated already: this changes nothing
				for _, a := range args {
					if _, err := a.Evaluate(ctx); err != nil {
						return nil, err
					}
				}
			}
			for _, a := range args {
				v, err := a.Evaluate(ctx)
				if err != nil {
					return nil, err
				}
				vals = append(vals, v)
			}
			return currentWorld().call(d, ctx, vals)
		}
	}
	cy.RegisterGlobalFunc(f)
}

func (w *RWorld) fault(where, name string) *injected {
	key := where + " " + name
	if w.counts == nil {
		w.counts = map[string]int{}
	}
	w.counts[key]++
	for _, f := range w.faults {
		if f.Where == where && f.Name == name && f.Nth == w.counts[key] {
			w.fired = append(w.fired, f)
			if f.Kind == "stall" {
				w.stalls++
				if w.onStall != nil && !w.onStall() {
					w.blocked = true
				}
				continue
			}
			if f.Kind == "nest" {
				w.nests++
				if err := evaluateElsewhere(); err != nil {
					panic(err)
				}
				continue
			}
			w.lastInj = &injected{ID: fmt.Sprintf("%s/%s/%d", where, name, f.Nth), Panic: f.Kind == "panic"}
			return w.lastInj
		}
	}
	return nil
}

// evaluateElsewhere evaluates statements with a filter on another graph,
// from inside a function or a filter
func evaluateElsewhere() error {
	g := lpg.NewGraph()
	ctx := cy.NewEvalContext(g)
	calls := 0
	ctx.PropertyValueFromNativeFilter = func(key string, v interface{}) interface{} {
		calls++
		return v
	}
	for _, t := range []string{`CREATE (x:A {p: 1})-[:R {q: "a"}]->(:B)`, `MATCH (x:A) SET x.p = 2, x += {s: "b"} RETURN x.p`} {
		if _, err := cy.ParseAndEvaluate(t, ctx.SubContext()); err != nil {
			return fmt.Errorf("nested evaluation: %w", err)
		}
	}
	if calls != 4 || g.NumNodes() != 2 || g.NumEdges() != 1 {
		return fmt.Errorf("nested evaluation: %d calls, %d nodes, %d relationships", calls, g.NumNodes(), g.NumEdges())
	}
	return nil
}

// filter is the property filter given to the code under test
func (w *RWorld) filter(key string, v interface{}) interface{} {
	x := w.stored(v)
	w.fltLog = append(w.fltLog, LogEntry{key, []V{x}})
	if f := w.fault("filter", key); f != nil {
		panic(f)
	}
	if y, ok := v.(*wrapped); ok {
		v = y.v
	}
	switch y := v.(type) {
	case int:
		v = y + 1000
	case string:
		v = "f_" + y
	}
	if w.c.Wrap&2 != 0 && v != nil {
		return &wrapped{v}
	}
	return v
}

// wrappedValues returns the number of property values that are objects
// of the application, to see whether they are replaced by their native
// values
func (w *RWorld) wrappedValues() (n int) {
	if w.c.Wrap&3 == 0 {
		return 0
	}
	count := func(k string, v interface{}) bool {
		if _, ok := v.(*wrapped); ok {
			n++
		}
		return true
	}
	for _, g := range w.graphs {
		for it := g.GetNodes(); it.Next(); {
			it.Node().ForEachProperty(count)
		}
		for it := g.GetEdges(); it.Next(); {
			it.Edge().ForEachProperty(count)
		}
	}
	return n
}

// keptNodes are the nodes found by a search
type keptNodes struct {
	op   int
	list []*lpg.Node
	was  []*lpg.Node
}

func keepNodes(op int, l []*lpg.Node) keptNodes {
	return keptNodes{op, l, append([]*lpg.Node{}, l...)}
}

// changed returns whether the nodes found by a search are others now
func (k *keptNodes) changed() bool {
	for i := range k.list {
		if k.list[i] != k.was[i] {
			return true
		}
	}
	return false
}

// given returns a value made by the application
func (w *RWorld) given(v interface{}) cy.Value {
	return cy.RValue{Value: v, Const: w.c.Wrap&4 != 0}
}

func (w *RWorld) call(d FnDef, ctx *cy.EvalContext, args []cy.Value) (cy.Value, error) {
	vals := make([]V, 0, len(args))
	for _, a := range args {
		vals = append(vals, w.value(a))
	}
	if !w.quiet {
		w.fnLog = append(w.fnLog, LogEntry{d.Name + "/" + strconv.Itoa(d.Ver), vals})
		if f := w.fault("fn", d.Name); f != nil {
			if f.Panic {
				panic(f)
			}
			return nil, f
		}
	}
	null := cy.RValue{}
	switch d.Kind {
	case "id":
		if d.Ver == 2 {
			return args[0], nil
		}
		return w.given(args[0].Get()), nil
	case "inc":
		if i, ok := args[0].Get().(int); ok {
			return w.given(i + d.Ver), nil
		}
		return null, nil
	case "cnt":
		return w.given(len(args)*10 + d.Ver), nil
	case "nest":
		i, ok := args[0].Get().(int)
		if !ok || i < 0 || i >= len(w.c.Nested) {
			return null, nil
		}
		if w.depth >= maxNesting {
			return cy.RValue{Value: -7}, nil
		}
		w.depth++
		defer func() { w.depth-- }()
		nc := ctx.SubContext()
		if d.Ver%2 == 0 {
			nc = cy.NewEvalContext(w.graphs[w.curG])
		}
		if len(args) > 1 {
			nc.SetParameter("$x", cy.RValue{Value: args[1].Get()})
			nc.SetParameter("$i", cy.RValue{Value: args[1].Get()})
		}
		e, err := w.parse(w.c.Nested[i].Text(), false)
		if err != nil {
			return nil, err
		}
		v, err := e.Evaluate(nc)
		if err != nil {
			return nil, err
		}
		rs, ok := v.Get().(cy.ResultSet)
		if !ok {
			return nil, errors.New("no result set")
		}
		return cy.RValue{Value: len(rs.Rows)}, nil
	}
	panic("function " + d.Kind)
}

// maxNesting is how deep functions that evaluate statements do so
const maxNesting = 2

// Parsing is expensive; it is counted to be able to see it in the evidence
var parses int

func (w *RWorld) parse(text string, fresh bool) (cy.Evaluatable, error) {
	if w.shared != nil {
		if p, ok := w.shared.stmts[text]; ok {
			return p.e, p.err
		}
	}
	if !fresh {
		if p, ok := w.parsed[text]; ok {
			return p.e, p.err
		}
	}
	e, err := cy.Parse(text)
	w.parsed[text] = parsedStmt{e, err}
	return e, err
}

func (w *RWorld) parsePart(text string, fresh bool) (cy.PatternPart, error) {
	if w.shared != nil {
		if p, ok := w.shared.parts[text]; ok {
			return p.p, p.err
		}
	}
	if !fresh {
		if p, ok := w.parts[text]; ok {
			return p.p, p.err
		}
	}
	e, err := cy.ParsePatternExpr(text)
	w.parts[text] = parsedPart{e, err}
	return e, err
}

// new elements are shown by negative numbers
func (w *RWorld) nodeID(n *lpg.Node) NRef {
	if n == nil {
		return NRef(-1)
	}
	if i, ok := w.nodes[n]; ok {
		return NRef(i)
	}
	return NRef(-2 - n.GetID())
}

func (w *RWorld) edgeID(e *lpg.Edge) int {
	if e == nil {
		return -1
	}
	if i, ok := w.edges[e]; ok {
		return i
	}
	return -2 - e.GetID()
}

func (w *RWorld) value(v cy.Value) V {
	if v == nil {
		return "<no value>"
	}
	return w.native(v.Get())
}

func (w *RWorld) native(v interface{}) V {
	switch x := v.(type) {
	case nil, int, string, bool, float64:
		return x
	case int8:
		return Nat{"i8", int(x)}
	case int16:
		return Nat{"i16", int(x)}
	case int32:
		return Nat{"i32", int(x)}
	case int64:
		return Nat{"i64", int(x)}
	case uint8:
		return Nat{"u8", int(x)}
	case uint16:
		return Nat{"u16", int(x)}
	case uint32:
		return Nat{"u32", int(x)}
	case float32:
		return Nat{"f32", int(x)}
	case *lpg.Node:
		return w.nodeID(x)
	case *lpg.Edge:
		return PRef{w.edgeID(x)}
	case *lpg.Path:
		p := PRef{}
		if x.NumEdges() == 0 {
			return w.nodeID(x.First())
		}
		for i := 0; i < x.NumEdges(); i++ {
			p = append(p, w.edgeID(x.GetEdge(i)))
		}
		return p
	case []*lpg.Edge:
		p := PRef{}
		for _, e := range x {
			p = append(p, w.edgeID(e))
		}
		return p
	case []string:
		s := append(SSet{}, x...)
		sort.Strings(s)
		return s
	case lpg.StringSet:
		return SSet(x.SortedSlice())
	case []cy.Value:
		l := make([]V, 0, len(x))
		for _, y := range x {
			l = append(l, w.value(y))
		}
		return l
	case map[string]cy.Value:
		m := map[string]V{}
		for _, k := range inOrder(x) {
			m[k] = w.value(x[k])
		}
		return m
	case cy.Value:
		return w.value(x)
	}
	return fmt.Sprintf("<%T %v>", v, v)
}

// Result is what an operation returned
type Result struct {
	NoSet bool
	rs    cy.ResultSet
	Rows  []Row
	Nodes []*lpg.Node
	IsRel bool
	Err   error
	Panic interface{}
	Stack string
	Steps uint64
}

func (w *RWorld) rows(rs cy.ResultSet) []Row {
	var out []Row
	for _, r := range rs.Rows {
		row := Row{}
		for _, k := range inOrder(r) {
			row[k] = w.value(r[k])
		}
		out = append(out, row)
	}
	return out
}

func (w *RWorld) begin(faults []Fault) {
	w.faults = faults
	w.counts = nil
	w.fired = nil
	w.fnLog, w.fltLog = nil, nil
	w.lastInj = nil
	w.depth = 0
}

// exec runs one statement or search, catching panics
func (w *RWorld) exec(f func(*Result)) (res *Result) {
	res = &Result{}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(rt.Aborted); ok {
				panic(e)
			}
			if _, ok := e.(rt.Deadlock); ok && rt.Scheduled() {
				panic(e)
			}
			res.Panic = e
			if _, ok := e.(*injected); !ok {
				res.Stack = shortStack(debug.Stack())
			}
		}
	}()
	f(res)
	return
}

func shortStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	on := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			on = true
			out = nil
			continue
		}
		if on && !strings.HasPrefix(l, "\t") && strings.Contains(l, "cloudprivacylabs") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			out = append(out, l[strings.LastIndex(l, "/")+1:])
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (w *RWorld) evalStmt(text string, fresh bool, ctx *cy.EvalContext) *Result {
	return w.exec(func(res *Result) {
		e, err := w.parse(text, fresh)
		if err != nil {
			res.Err = err
			return
		}
		v, err := e.Evaluate(ctx)
		if err != nil {
			res.Err = err
			return
		}
		if v == nil {
			res.NoSet = true
			return
		}
		rs, ok := v.Get().(cy.ResultSet)
		if !ok {
			res.NoSet = true
			return
		}
		res.rs = rs
	})
}

func (w *RWorld) findRelative(text string, fresh bool, n *lpg.Node) *Result {
	return w.exec(func(res *Result) {
		res.IsRel = true
		p, err := w.parsePart(text, fresh)
		if err != nil {
			res.Err = err
			return
		}
		res.Nodes, res.Err = p.FindRelative(n)
	})
}

// SNode and SEdge are elements of a graph of the code under test
type SNode struct {
	n    *lpg.Node
	desc string
}

type SEdge struct {
	e        *lpg.Edge
	from, to *lpg.Node
	desc     string
}

// snapshot lists the elements of a graph and checks that everything the
// graph says about itself agrees
func (w *RWorld) snapshot(g *lpg.Graph) (nodes []SNode, edges []SEdge, problem string) {
	bad := func(f string, a ...interface{}) {
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	// a damaged graph may panic
	defer func() {
		if e := recover(); e != nil {
			bad("reading the graph panics: %v", e)
		}
	}()
	seen := map[*lpg.Node]bool{}
	labels := map[string]int{}
	types := map[string]int{}
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		if seen[n] {
			bad("node listed twice")
			break
		}
		seen[n] = true
		props := map[string]V{}
		n.ForEachProperty(func(k string, v interface{}) bool {
			props[k] = w.stored(v)
			if x, ok := n.GetProperty(k); !ok || renderV(w.stored(x), nil) != renderV(props[k], nil) {
				bad("property %s reads differently", k)
			}
			return true
		})
		ls := n.GetLabels().SortedSlice()
		for _, l := range ls {
			labels[l]++
			if !n.HasLabel(l) {
				bad("label %s listed, but missing", l)
			}
		}
		if n.GetGraph() != g {
			bad("node of another graph")
		}
		nodes = append(nodes, SNode{n, fmt.Sprintf("%q%s", ls, renderV(props, nil))})
	}
	if g.NumNodes() != len(nodes) {
		bad("NumNodes is %d, but there are %d nodes", g.NumNodes(), len(nodes))
	}
	seenE := map[*lpg.Edge]bool{}
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		if seenE[e] {
			bad("relationship listed twice")
			break
		}
		seenE[e] = true
		if !seen[e.GetFrom()] || !seen[e.GetTo()] {
			bad("relationship with a missing end")
		}
		types[e.GetLabel()]++
		props := map[string]V{}
		e.ForEachProperty(func(k string, v interface{}) bool {
			props[k] = w.stored(v)
			return true
		})
		edges = append(edges, SEdge{e, e.GetFrom(), e.GetTo(), e.GetLabel() + renderV(props, nil)})
	}
	if g.NumEdges() != len(edges) {
		bad("NumEdges is %d, but there are %d relationships", g.NumEdges(), len(edges))
	}
	for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.IncomingEdge} {
		cnt := 0
		for _, n := range nodes {
			for it := n.n.GetEdges(dir); it.Next(); {
				e := it.Edge()
				cnt++
				end := e.GetFrom()
				if dir == lpg.IncomingEdge {
					end = e.GetTo()
				}
				if !seenE[e] || end != n.n {
					bad("adjacency of a node lists a foreign or removed relationship")
				}
			}
		}
		if cnt != len(edges) {
			bad("adjacency lists have %d relationships instead of %d", cnt, len(edges))
		}
	}
	for _, l := range append(sortedCount(labels), "A", "B", "C") {
		k := 0
		for it := g.GetNodesWithAllLabels(lpg.NewStringSet(l)); it.Next(); {
			n := it.Node()
			k++
			if !seen[n] || !n.HasLabel(l) {
				bad("lookup of label %s returns a wrong node", l)
			}
		}
		if k != labels[l] {
			bad("lookup of label %s returns %d of %d nodes", l, k, labels[l])
		}
	}
	for _, l := range append(sortedCount(types), "R", "S", "T") {
		k := 0
		for it := g.GetEdgesWithAnyLabel(lpg.NewStringSet(l)); it.Next(); {
			e := it.Edge()
			k++
			if !seenE[e] || e.GetLabel() != l {
				bad("lookup of type %s returns a wrong relationship", l)
			}
		}
		if k != types[l] {
			bad("lookup of type %s returns %d of %d relationships", l, k, types[l])
		}
	}
	return
}

func sortedCount(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func dumpSnapshot(w *RWorld, nodes []SNode, edges []SEdge) string {
	var b strings.Builder
	for _, n := range nodes {
		fmt.Fprintf(&b, "n%d%s ", int(w.nodeID(n.n)), n.desc)
	}
	for _, e := range edges {
		fmt.Fprintf(&b, "r%d:%d->%d:%s ", w.edgeID(e.e), int(w.nodeID(e.from)), int(w.nodeID(e.to)), e.desc)
	}
	return b.String()
}

func dumpModel(g *MGraph) string {
	var b strings.Builder
	for _, n := range g.Nodes {
		if !n.Deleted {
			fmt.Fprintf(&b, "n%d%s ", n.ID, descNode(n))
		}
	}
	for _, e := range g.Edges {
		if !e.Deleted {
			fmt.Fprintf(&b, "r%d:%d->%d:%s ", e.ID, e.From, e.To, descEdge(e))
		}
	}
	return b.String()
}

func descNode(n *MNode) string {
	ls := make([]string, 0, len(n.Labels))
	for l := range n.Labels {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return fmt.Sprintf("%q%s", ls, renderV(n.Props, nil))
}

func descEdge(e *MEdge) string { return e.Label + renderV(e.Props, nil) }
