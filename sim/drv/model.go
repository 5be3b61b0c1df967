package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The model: a small, direct interpreter of the statements, written from
// the properties, against which the results of the code under test are
// compared. It shares no code with it.

// V is a value of the model: nil, bool, int, float64, string, []V,
// map[string]V, NRef, PRef, SSet, or DateV
type V interface{}

// NRef refers to a node, PRef to a sequence of relationships
type NRef int
type PRef []int

// SSet is a sorted set of labels
type SSet []string

// Row is a row of variables or results
type Row map[string]V

// Nat is a property value of a Go type that queries see as another one
type Nat struct {
	K string
	I int
}

var natKinds = []string{"i8", "i16", "i32", "i64", "u8", "u16", "u32"}

// seen returns the value queries see
func seen(v V) V {
	if n, ok := v.(Nat); ok {
		if n.K == "f32" {
			return float64(n.I) + 0.5
		}
		return n.I
	}
	return v
}

func (v *Val) rt() V {
	switch v.K {
	case "i8", "i16", "i32", "i64", "u8", "u16", "u32", "f32":
		return Nat{v.K, v.I}
	case "int":
		return v.I
	case "str":
		return v.S
	case "bool":
		return v.B
	case "float":
		return v.F
	case "list":
		l := make([]V, 0, len(v.L))
		for _, x := range v.L {
			l = append(l, x.rt())
		}
		return l
	case "map":
		m := map[string]V{}
		for k, x := range v.M {
			x := x
			m[k] = x.rt()
		}
		return m
	}
	return nil
}

// MNode and MEdge are elements of a model graph
type MNode struct {
	ID      int
	Labels  map[string]bool
	Props   map[string]V
	Deleted bool
}

type MEdge struct {
	ID       int
	From, To int
	Label    string
	Props    map[string]V
	Deleted  bool
}

// MGraph is a model graph. Ids are not reused.
type MGraph struct {
	Nodes   []*MNode
	Edges   []*MEdge
	base    int // size at the start
	Removed int // number of removed nodes
}

func copyProps(p map[string]V) map[string]V {
	r := make(map[string]V, len(p))
	for k, v := range p {
		r[k] = v
	}
	return r
}

func (g *MGraph) clone() *MGraph {
	r := &MGraph{Removed: g.Removed, base: g.base}
	for _, n := range g.Nodes {
		c := *n
		c.Labels = map[string]bool{}
		for l := range n.Labels {
			c.Labels[l] = true
		}
		c.Props = copyProps(n.Props)
		r.Nodes = append(r.Nodes, &c)
	}
	for _, e := range g.Edges {
		c := *e
		c.Props = copyProps(e.Props)
		r.Edges = append(r.Edges, &c)
	}
	return r
}

func (g *MGraph) newNode(labels []string, props map[string]V) *MNode {
	n := &MNode{ID: len(g.Nodes), Labels: map[string]bool{}, Props: props}
	for _, l := range labels {
		n.Labels[l] = true
	}
	g.Nodes = append(g.Nodes, n)
	g.limit()
	return n
}

func (g *MGraph) newEdge(from, to int, label string, props map[string]V) *MEdge {
	e := &MEdge{ID: len(g.Edges), From: from, To: to, Label: label, Props: props}
	g.Edges = append(g.Edges, e)
	g.limit()
	return e
}

// limit keeps the graphs of a history small
func (g *MGraph) limit() {
	b := g.base
	if len(g.Nodes) > 60+b || len(g.Edges) > 120+b {
		if n, e, _ := g.live(); n > 60+b || e > 120+b || len(g.Nodes) > 400+2*b || len(g.Edges) > 800+2*b {
			drop("graph too large")
		}
	}
}

// walks returns an upper bound of the number of partial embeddings of a
// pattern with k relationships, whatever order they are searched in
func (g *MGraph) walks(k int) int {
	cnt := make([]int, len(g.Nodes))
	sum := 0
	for i, n := range g.Nodes {
		if !n.Deleted {
			cnt[i] = 1
			sum++
		}
	}
	for ; k > 0; k-- {
		next := make([]int, len(cnt))
		for _, e := range g.Edges {
			if !e.Deleted {
				next[e.From] += cnt[e.To]
				next[e.To] += cnt[e.From]
			}
		}
		cnt = next
		for _, c := range cnt {
			sum += c
		}
		if sum > 1<<40 {
			return 1 << 40
		}
	}
	return sum
}

func (g *MGraph) live() (nodes, edges, loops int) {
	for _, n := range g.Nodes {
		if !n.Deleted {
			nodes++
		}
	}
	for _, e := range g.Edges {
		if !e.Deleted {
			edges++
			if e.From == e.To {
				loops++
			}
		}
	}
	return
}

// discard abandons a statement whose meaning is not settled by the
// properties, or which runs into a known finding
type discard struct{ why string }

func drop(why string) { panic(discard{why}) }

func size(v V) int {
	switch x := v.(type) {
	case []V:
		n := 1
		for _, y := range x {
			n += size(y)
		}
		return n
	case map[string]V:
		n := 1
		for _, y := range x {
			n += size(y)
		}
		return n
	}
	return 1
}

// errors of the model
var errModel = errors.New("model error")

type errClass struct{ class string }

func (e errClass) Error() string { return e.class }

// injected is an injected failure
type injected struct {
	ID    string
	Panic bool
}

func (e *injected) Error() string { return "injected " + e.ID }

// MCtx is an evaluation context of the model
type MCtx struct {
	parent *MCtx
	vars   map[string]V
	params map[string]V
	g      int // graph
	filter bool
}

func (c *MCtx) sub() *MCtx {
	return &MCtx{parent: c, vars: map[string]V{}, params: map[string]V{}, g: c.g, filter: c.filter}
}

func (c *MCtx) get(n string) (V, bool) {
	for x := c; x != nil; x = x.parent {
		if v, ok := x.vars[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (c *MCtx) param(n string) (V, bool) {
	for x := c; x != nil; x = x.parent {
		if v, ok := x.params[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (c *MCtx) setAll(r Row) {
	for k, v := range r {
		c.vars[k] = v
	}
}

// FnDef describes a registered function
type FnDef struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // id inc cnt nest
	Ver  int    `json:"ver"`
	Min  int    `json:"min"`
	Max  int    `json:"max"`
	// ByValue: registered as ValueFunc
	ByValue bool `json:"byValue,omitempty"`
	// Twice: it evaluates its arguments again
	Twice bool `json:"twice,omitempty"`
}

// Fault makes the Nth call of a function or filter key within an
// operation fail
type Fault struct {
	Where string `json:"where"` // fn filter
	Name  string `json:"name"`
	Nth   int    `json:"nth"`
	Kind  string `json:"kind"` // err panic stall
}

// LogEntry records a call
type LogEntry struct {
	Name string
	Args []V
}

// MWorld is the state of the model
type MWorld struct {
	graphs []*MGraph
	fns    map[string]FnDef
	nested []*Stmt
	ctxs   []*MCtx

	// of the current operation
	faults  []Fault
	counts  map[string]int
	fired   []Fault
	fnLog   []LogEntry
	fltLog  []LogEntry
	layers  [][]Row // exported variables: candidates
	work    int
	bound   int
	hints   map[string]map[string][]int // clause -> row -> ranks
	hinted  map[string]int              // ranks used
	choices []int
	radix   []int
	pos     int
	inexact bool
	depth   int
	rowsMax int
	// a row the code under test does not find
	probeMiss string
	// the RETURN whose rows set the variables of the context
	lastReturn *Clause
	stats      map[string]int
	// shuffle permutes rows, if set
	shuffle *rng
}

// reverseOrder is the state of a generator that stands for reversing the
// rows
const reverseOrder = 0xfeedfacecafebeef

func (w *MWorld) shuffleRows(rows []Row) {
	if w.shuffle == nil {
		return
	}
	n := len(rows)
	if w.shuffle.s == reverseOrder {
		for i := 0; i < n/2; i++ {
			rows[i], rows[n-1-i] = rows[n-1-i], rows[i]
		}
		return
	}
	for i := n - 1; i > 0; i-- {
		k := w.shuffle.n(i + 1)
		rows[i], rows[k] = rows[k], rows[i]
	}
}

func (w *MWorld) clone() *MWorld {
	r := &MWorld{fns: map[string]FnDef{}, nested: w.nested, stats: w.stats}
	for _, g := range w.graphs {
		r.graphs = append(r.graphs, g.clone())
	}
	for k, v := range w.fns {
		r.fns[k] = v
	}
	m := map[*MCtx]*MCtx{}
	for _, c := range w.ctxs {
		n := *c
		n.vars = copyProps(c.vars)
		n.params = copyProps(c.params)
		if c.parent != nil {
			n.parent = m[c.parent]
		}
		m[c] = &n
		r.ctxs = append(r.ctxs, &n)
	}
	return r
}

func (w *MWorld) begin(faults []Fault) {
	w.faults = faults
	w.counts = map[string]int{}
	w.fired = nil
	w.fnLog, w.fltLog = nil, nil
	w.layers = nil
	w.work, w.bound = 0, 0
	w.pos = 0
	w.inexact = false
	w.rowsMax = 0
	w.probeMiss = ""
	w.lastReturn = nil
	w.depth = 0
}

func (w *MWorld) fault(where, name string) error {
	key := where + " " + name
	w.counts[key]++
	for _, f := range w.faults {
		if f.Where == where && f.Name == name && f.Nth == w.counts[key] && f.Kind != "stall" && f.Kind != "nest" {
			w.fired = append(w.fired, f)
			return &injected{ID: fmt.Sprintf("%s/%s/%d", where, name, f.Nth), Panic: f.Kind == "panic"}
		}
	}
	return nil
}

// perm returns one of the orders of n things; which one is a choice
func (w *MWorld) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 {
		return p
	}
	if n > 4 {
		w.inexact = true
		return p
	}
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	d := 0
	if w.shuffle != nil {
		d = w.shuffle.n(f)
		w.shuffle.s |= 1
	}
	if w.pos < len(w.choices) {
		d = w.choices[w.pos]
	} else {
		w.choices = append(w.choices, 0)
		w.radix = append(w.radix, f)
	}
	w.pos++
	// d-th permutation
	avail := append([]int{}, p...)
	for i := 0; i < n; i++ {
		f /= n - i
		k := d / f
		d %= f
		p[i] = avail[k]
		avail = append(avail[:k], avail[k+1:]...)
	}
	return p
}

// nextChoice moves to the next combination of choices
func (w *MWorld) nextChoice() bool {
	w.choices, w.radix = w.choices[:w.pos], w.radix[:w.pos]
	for i := len(w.choices) - 1; i >= 0; i-- {
		w.choices[i]++
		if w.choices[i] < w.radix[i] {
			w.choices, w.radix = w.choices[:i+1], w.radix[:i+1]
			return true
		}
	}
	return false
}

// filter is the property filter of the model: a bijection that keeps the
// type, so that applying it twice or not at all shows
func filterValue(key string, v V) V {
	switch x := v.(type) {
	case int:
		return x + 1000
	case string:
		return "f_" + x
	}
	return v
}

func (w *MWorld) writeProp(c *MCtx, key string, v V) (V, error) {
	if !c.filter {
		return v, nil
	}
	w.fltLog = append(w.fltLog, LogEntry{key, []V{v}})
	if err := w.fault("filter", key); err != nil {
		return nil, err
	}
	return filterValue(key, v), nil
}

// writeProps passes the values through the filter. The order of the keys
// is not determined, which shows if the filter fails.
func (w *MWorld) writeProps(c *MCtx, props map[string]V) (map[string]V, error) {
	keys := sortedKeys(props)
	counts := map[string]int{}
	for k, v := range w.counts {
		counts[k] = v
	}
	logLen, firedLen := len(w.fltLog), len(w.fired)
	try := func(perm []int) (map[string]V, error) {
		r := map[string]V{}
		for _, i := range perm {
			v, err := w.writeProp(c, keys[i], props[keys[i]])
			if err != nil {
				return nil, err
			}
			r[keys[i]] = v
		}
		return r, nil
	}
	id := make([]int, len(keys))
	for i := range id {
		id[i] = i
	}
	r, err := try(id)
	if err == nil || len(keys) < 2 {
		return r, err
	}
	w.counts = counts
	w.fltLog, w.fired = w.fltLog[:logLen], w.fired[:firedLen]
	return try(w.perm(len(keys)))
}

// ambiguous values: what is null for one reading of three valued logic
// and false for another
type ambFalse struct{}

func (w *MWorld) eval(c *MCtx, e *Expr) (V, error) {
	v, err := w.eval1(c, e)
	if err != nil {
		return nil, err
	}
	if _, ok := v.(ambFalse); ok {
		drop("ambiguous null")
	}
	return v, nil
}

func (w *MWorld) node(g int, r NRef) *MNode {
	n := w.graphs[g].Nodes[r]
	if n.Deleted {
		drop("deleted node")
	}
	return n
}

func (w *MWorld) eval1(c *MCtx, e *Expr) (V, error) {
	switch e.Op {
	case "lit":
		return e.V.rt(), nil
	case "param":
		v, ok := c.param(e.N)
		if !ok {
			return nil, errClass{"ErrUnknownParameter"}
		}
		return v, nil
	case "var":
		v, ok := c.get(e.N)
		if !ok {
			return nil, errClass{"ErrUnknownVariable"}
		}
		return v, nil
	case "prop":
		v, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		switch x := v.(type) {
		case nil:
			return nil, nil
		case NRef:
			return seen(w.node(c.g, x).Props[e.N]), nil
		case PRef:
			if len(x) == 1 {
				ed := w.graphs[c.g].Edges[x[0]]
				if ed.Deleted {
					drop("deleted relationship")
				}
				return seen(ed.Props[e.N]), nil
			}
		}
		return nil, errModel
	case "cmp":
		a, err := w.eval(c, e.A[0])
		if err != nil || a == nil {
			return nil, err
		}
		b, err := w.eval(c, e.A[1])
		if err != nil || b == nil {
			return nil, err
		}
		d, ok := compare(a, b)
		if !ok {
			return nil, errModel
		}
		switch e.N {
		case "=":
			return d == 0, nil
		case "<>":
			return d != 0, nil
		case "<":
			return d < 0, nil
		case "<=":
			return d <= 0, nil
		case ">":
			return d > 0, nil
		case ">=":
			return d >= 0, nil
		}
	case "and", "or":
		// null with an operand that decides is null or the decision,
		// depending on whom you ask
		sawNull, decided := false, false
		for _, a := range e.A {
			v, err := w.eval1(c, a)
			if err != nil {
				if decided || sawNull {
					drop("error in an operand that need not be evaluated")
				}
				return nil, err
			}
			if _, amb := v.(ambFalse); amb {
				if e.Op == "and" {
					return ambFalse{}, nil
				}
				drop("ambiguous null")
			}
			if v == nil {
				sawNull = true
				continue
			}
			b, ok := v.(bool)
			if !ok {
				drop("not boolean")
			}
			if b == (e.Op == "or") {
				decided = true
			}
		}
		switch {
		case !sawNull:
			return decided == (e.Op == "or"), nil
		case !decided:
			return nil, nil
		case e.Op == "and":
			return ambFalse{}, nil
		}
		drop("ambiguous null")
	case "xor":
		r := false
		for _, a := range e.A {
			v, err := w.eval(c, a)
			if err != nil || v == nil {
				return nil, err
			}
			r = r != v.(bool)
		}
		return r, nil
	case "not":
		v, err := w.eval(c, e.A[0])
		if err != nil || v == nil {
			return nil, err
		}
		b, ok := v.(bool)
		if !ok {
			return nil, errModel
		}
		return !b, nil
	case "isnull", "notnull":
		v, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		return (v == nil) == (e.Op == "isnull"), nil
	case "+", "-", "*", "/", "%":
		a, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		b, err := w.eval(c, e.A[1])
		if err != nil {
			return nil, err
		}
		if a == nil || b == nil {
			if strings.Contains("*/%", e.Op) && a != nil {
				drop("null factor")
			}
			return nil, nil
		}
		switch x := a.(type) {
		case int:
			if y, ok := b.(int); ok {
				switch e.Op {
				case "+":
					return x + y, nil
				case "-":
					return x - y, nil
				case "*":
					return x * y, nil
				}
				if y == 0 {
					return nil, errModel
				}
				if e.Op == "/" {
					return x / y, nil
				}
				return x % y, nil
			}
		case string:
			if y, ok := b.(string); ok && e.Op == "+" {
				if len(x)+len(y) > 4000 {
					drop("value too large")
				}
				return x + y, nil
			}
		case []V:
			if y, ok := b.([]V); ok && e.Op == "+" {
				if size(x)+size(y) > 500 {
					drop("value too large")
				}
				return append(append([]V{}, x...), y...), nil
			}
		}
		return nil, errModel
	case "neg":
		v, err := w.eval(c, e.A[0])
		if err != nil || v == nil {
			return nil, err
		}
		if i, ok := v.(int); ok {
			return -i, nil
		}
		return nil, errModel
	case "case":
		i := 0
		for ; i+1 < len(e.A); i += 2 {
			v, err := w.eval(c, e.A[i])
			if err != nil {
				return nil, err
			}
			if v == nil {
				drop("null condition")
			}
			b, ok := v.(bool)
			if !ok {
				return nil, errModel
			}
			if b {
				return w.eval(c, e.A[i+1])
			}
		}
		if i < len(e.A) {
			return w.eval(c, e.A[i])
		}
		return nil, nil
	case "div0":
		v, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		if v == nil {
			return nil, nil
		}
		return nil, errModel
	case "list":
		l := make([]V, 0, len(e.A))
		for _, a := range e.A {
			v, err := w.eval(c, a)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		if size(l) > 500 {
			drop("value too large")
		}
		return l, nil
	case "map":
		m := map[string]V{}
		for i, k := range strings.Split(e.N, ",") {
			v, err := w.eval(c, e.A[i])
			if err != nil {
				return nil, err
			}
			m[k] = v
		}
		return m, nil
	case "index":
		l, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		ix, err := w.eval(c, e.A[1])
		if err != nil {
			return nil, err
		}
		if l == nil || ix == nil {
			return nil, nil
		}
		lst, ok := l.([]V)
		i, ok2 := ix.(int)
		if !ok || !ok2 {
			return nil, errModel
		}
		if i < 0 {
			i += len(lst)
		}
		if i < 0 || i >= len(lst) {
			return nil, nil
		}
		return lst[i], nil
	case "in":
		a, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		l, err := w.eval(c, e.A[1])
		if err != nil {
			return nil, err
		}
		if l == nil {
			return nil, nil
		}
		lst, ok := l.([]V)
		if !ok {
			return nil, errModel
		}
		if a == nil {
			if len(lst) == 0 {
				drop("null in nothing")
			}
			return nil, nil
		}
		null := false
		for _, x := range lst {
			if x == nil {
				null = true
				continue
			}
			d, ok := compare(a, x)
			if !ok {
				drop("incomparable element")
			}
			if d == 0 {
				return true, nil
			}
		}
		if null {
			return nil, nil
		}
		return false, nil
	case "slice":
		l, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		lst, ok := l.([]V)
		if !ok {
			drop("slice of no list")
		}
		b, err := w.eval(c, e.A[1])
		if err != nil {
			return nil, err
		}
		to, err := w.eval(c, e.A[2])
		if err != nil {
			return nil, err
		}
		i, ok := b.(int)
		j, ok2 := to.(int)
		// the end of the list is C19
		if !ok || !ok2 || i < 0 || j < i || j >= len(lst) {
			drop("bounds of a slice")
		}
		return append([]V{}, lst[i:j]...), nil
	case "switch":
		t, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		i := 1
		for ; i+1 < len(e.A); i += 2 {
			v, err := w.eval(c, e.A[i])
			if err != nil {
				return nil, err
			}
			if t == nil && v == nil {
				drop("case null when null")
			}
			if t == nil || v == nil {
				continue
			}
			d, ok := compare(t, v)
			if !ok {
				return nil, errModel
			}
			if d == 0 {
				return w.eval(c, e.A[i+1])
			}
		}
		if i < len(e.A) {
			return w.eval(c, e.A[i])
		}
		return nil, nil
	case "startsWith", "endsWith", "contains":
		a, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		if a == nil {
			drop("null string")
		}
		b, err := w.eval(c, e.A[1])
		if err != nil {
			return nil, err
		}
		x, ok := a.(string)
		y, ok2 := b.(string)
		if !ok || !ok2 {
			return nil, errModel
		}
		switch e.Op {
		case "startsWith":
			return strings.HasPrefix(x, y), nil
		case "endsWith":
			return strings.HasSuffix(x, y), nil
		}
		return strings.Contains(x, y), nil
	case "fn":
		return w.call(c, e)
	}
	panic("expression " + e.Op)
}

func compare(a, b V) (int, bool) {
	switch x := a.(type) {
	case int:
		if y, ok := b.(int); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), true
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0, true
			}
			if x {
				return 1, true
			}
			return -1, true
		}
	}
	return 0, false
}

func (w *MWorld) call(c *MCtx, e *Expr) (V, error) {
	switch e.N {
	case "size", "labels", "type":
		v, err := w.eval(c, e.A[0])
		if err != nil {
			return nil, err
		}
		switch e.N {
		case "size":
			switch x := v.(type) {
			case string:
				return len(x), nil
			case []V:
				return len(x), nil
			}
			return nil, nil
		case "labels":
			switch x := v.(type) {
			case nil:
				return nil, nil
			case NRef:
				s := SSet{}
				for l := range w.node(c.g, x).Labels {
					s = append(s, l)
				}
				sort.Strings(s)
				return s, nil
			}
			return nil, errModel
		case "type":
			if x, ok := v.(PRef); ok && len(x) == 1 {
				ed := w.graphs[c.g].Edges[x[0]]
				if ed.Deleted {
					drop("deleted relationship")
				}
				return ed.Label, nil
			}
			return nil, errModel
		}
	}
	switch e.N {
	case "trim", "substring", "split", "toInteger":
		var args []V
		null := false
		for _, a := range e.A {
			v, err := w.eval(c, a)
			if err != nil {
				return nil, err
			}
			args = append(args, v)
			null = null || v == nil
		}
		if null {
			if args[0] != nil {
				drop("null argument")
			}
			return nil, nil
		}
		if e.N == "toInteger" {
			switch x := args[0].(type) {
			case int:
				return x, nil
			case bool:
				if x {
					return 1, nil
				}
				return 0, nil
			}
			drop("toInteger")
		}
		s, ok := args[0].(string)
		if !ok {
			return nil, errModel
		}
		switch e.N {
		case "trim":
			return strings.TrimSpace(s), nil
		case "substring":
			i, ok := args[1].(int)
			if !ok {
				return nil, errModel
			}
			if i < 0 || i > len(s) {
				drop("substring")
			}
			return s[i:], nil
		}
		d, ok := args[1].(string)
		if !ok {
			return nil, errModel
		}
		l := []V{}
		for _, x := range strings.Split(s, d) {
			l = append(l, x)
		}
		return l, nil
	}
	d, ok := w.fns[e.N]
	if !ok {
		return nil, errClass{"ErrUnknownFunction"}
	}
	if len(e.A) < d.Min || d.Max >= 0 && len(e.A) > d.Max {
		return nil, errClass{"ErrInvalidFunctionCall"}
	}
	args := make([]V, 0, len(e.A))
	for _, a := range e.A {
		v, err := w.eval(c, a)
		if err != nil {
			return nil, err
		}
		args = append(args, v)
	}
	w.fnLog = append(w.fnLog, LogEntry{e.N + "/" + strconv.Itoa(d.Ver), args})
	if err := w.fault("fn", e.N); err != nil {
		return nil, err
	}
	switch d.Kind {
	case "id":
		return args[0], nil
	case "inc":
		if i, ok := args[0].(int); ok {
			return i + d.Ver, nil
		}
		return nil, nil
	case "cnt":
		return len(args)*10 + d.Ver, nil
	case "nest":
		i, ok := args[0].(int)
		if !ok || i < 0 || i >= len(w.nested) {
			return nil, nil
		}
		if w.depth >= maxNesting {
			return -7, nil
		}
		// with its own context, or one derived from the given one
		nc := c.sub()
		if d.Ver%2 == 0 {
			nc = &MCtx{vars: map[string]V{}, params: map[string]V{}, g: c.g}
		}
		if len(args) > 1 {
			nc.params["x"], nc.params["i"] = args[1], args[1]
		}
		saved := w.layers
		w.depth++
		rows, _, err := w.stmt(nc, w.nested[i], "n")
		w.depth--
		w.layers = saved
		if err != nil {
			return nil, err
		}
		return len(rows), nil
	}
	panic("function " + d.Kind)
}

// patEnv is a pattern with evaluated properties
type patNode struct {
	NodePat
	props map[string]V
}
type patRel struct {
	RelPat
	props map[string]V
}
type pattern struct {
	nodes []patNode
	rels  []patRel
}

func (w *MWorld) evalProps(c *MCtx, l []PropPat, param string) (map[string]V, error) {
	r := map[string]V{}
	if param != "" {
		v, ok := c.param(param)
		if !ok {
			return nil, errClass{"ErrUnknownParameter"}
		}
		m, ok := v.(map[string]V)
		if !ok {
			return nil, errModel
		}
		for k, x := range m {
			r[k] = x
		}
	}
	for _, x := range l {
		v, err := w.eval(c, x.E)
		if err != nil {
			return nil, err
		}
		r[x.K] = v
	}
	return r, nil
}

// withoutNulls removes the properties that are null
func withoutNulls(m map[string]V) map[string]V {
	for k, v := range m {
		if v == nil {
			delete(m, k)
		}
	}
	return m
}

func (w *MWorld) pattern(c *MCtx, p Part) (*pattern, error) {
	r := &pattern{}
	add := func(n NodePat) error {
		props, err := w.evalProps(c, n.Props, n.Param)
		if err != nil {
			return err
		}
		r.nodes = append(r.nodes, patNode{n, props})
		return nil
	}
	if err := add(p.Start); err != nil {
		return nil, err
	}
	for _, s := range p.Steps {
		props, err := w.evalProps(c, s.Rel.Props, "")
		if err != nil {
			return nil, err
		}
		r.rels = append(r.rels, patRel{s.Rel, props})
		if err := add(s.Node); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func matchable(props map[string]V) {
	for _, v := range props {
		switch v.(type) {
		case int, string:
		default:
			drop("KF4")
		}
	}
}

// checkDomain drops patterns that run into known findings of the
// pattern planner in lpg (see DESIGN.md)
func (w *MWorld) checkDomain(c *MCtx, p *pattern) {
	g := w.graphs[c.g]
	nodes, edges, loops := g.live()
	seen := map[string]bool{}
	bound0 := false
	for i, n := range p.nodes {
		matchable(n.props)
		if n.Var == "" {
			continue
		}
		v, ok := c.get(n.Var)
		if ok {
			switch x := v.(type) {
			case nil:
			case NRef:
				if g.Nodes[x].Deleted {
					drop("deleted node")
				}
			default:
				drop("variable is not a node")
			}
			if i == 0 {
				bound0 = true
			}
		} else if seen[n.Var] {
			drop("KF2")
		}
		seen[n.Var] = true
	}
	directed, right, fixed, undirected := true, true, true, false
	varAt := -1
	lower := edges
	for i, r := range p.rels {
		matchable(r.props)
		if r.Var != "" {
			if seen[r.Var] {
				drop("relationship variable repeated")
			}
			if v, ok := c.get(r.Var); ok {
				if v == nil {
					lower = 0
				} else if e, ok := v.(PRef); !ok || len(e) != 1 || r.VarLen {
					drop("bound path")
				} else if g.Edges[e[0]].Deleted {
					drop("deleted relationship")
				} else {
					lower = 1
				}
			}
			seen[r.Var] = true
		}
		switch r.Dir {
		case 1:
			right = false
		case 2:
			directed, right, undirected = false, false, true
		}
		if r.VarLen {
			fixed = false
			if varAt >= 0 {
				varAt = 99
			} else {
				varAt = i
			}
			if r.Max == 0 && edges > 8 {
				drop("search too large")
			}
		} else {
			n := 0
			for _, e := range g.Edges {
				if !e.Deleted && r.hasType(e.Label) {
					n++
				}
			}
			if n < lower {
				lower = n
			}
		}
	}
	if undirected && loops > 0 {
		drop("KF6")
	}
	if len(p.rels) == 0 || bound0 {
		return
	}
	if len(p.rels) == 1 && directed && fixed || right && fixed {
		return
	}
	startIsNode := nodes+g.Removed <= lower
	if !fixed && len(p.rels) == 1 && !undirected {
		return // relationships of variable length never start a plan
	}
	if !startIsNode {
		drop("KF3")
	}
	if !fixed && varAt != 0 {
		drop("KF3")
	}
}

func (r *RelPat) hasType(l string) bool {
	if len(r.Types) == 0 {
		return true
	}
	for _, t := range r.Types {
		if t == l {
			return true
		}
	}
	return false
}

func hasProps(have, want map[string]V) bool {
	for k, v := range want {
		h, ok := have[k]
		if !ok || v == nil {
			return false
		}
		if d, ok := compare(h, v); !ok || d != 0 {
			return false
		}
	}
	return true
}

// matchPart enumerates the embeddings of a pattern
func (w *MWorld) matchPart(c *MCtx, p *pattern, f func(Row)) {
	w.checkDomain(c, p)
	g := w.graphs[c.g]
	row := Row{}
	if w.bound += g.walks(len(p.rels)); w.bound > 500000 {
		drop("too much work")
	}
	tryNode := func(i int, n *MNode, next func()) {
		w.work++
		if w.work > 100000 {
			drop("too much work")
		}
		if n.Deleted {
			return
		}
		pn := &p.nodes[i]
		for _, l := range pn.Labels {
			if !n.Labels[l] {
				return
			}
		}
		if !hasProps(n.Props, pn.props) {
			return
		}
		if pn.Var != "" {
			if v, ok := row[pn.Var]; ok {
				if v != NRef(n.ID) {
					return
				}
				next()
				return
			}
			if v, ok := c.get(pn.Var); ok {
				if v != NRef(n.ID) {
					return
				}
			}
			row[pn.Var] = NRef(n.ID)
			next()
			delete(row, pn.Var)
			return
		}
		next()
	}
	var step func(i int, at *MNode)
	step = func(i int, at *MNode) {
		if i == len(p.rels) {
			r := Row{}
			for k, v := range row {
				r[k] = v
			}
			f(r)
			return
		}
		r := &p.rels[i]
		follow := func(e *MEdge, from int) (int, bool) {
			if w.work++; w.work > 100000 {
				drop("too much work")
			}
			if e.Deleted || !r.hasType(e.Label) || !hasProps(e.Props, r.props) {
				return 0, false
			}
			if r.Var != "" {
				if v, ok := c.get(r.Var); ok {
					if b, ok := v.(PRef); !ok || b[0] != e.ID {
						return 0, false
					}
				}
			}
			if r.Dir != 1 && e.From == from {
				return e.To, true
			}
			if r.Dir != 0 && e.To == from {
				return e.From, true
			}
			return 0, false
		}
		arrive := func(edges PRef, n int) {
			if r.Var != "" {
				row[r.Var] = append(PRef{}, edges...)
			}
			tryNode(i+1, g.Nodes[n], func() { step(i+1, g.Nodes[n]) })
			if r.Var != "" {
				delete(row, r.Var)
			}
		}
		if !r.VarLen {
			for _, e := range g.Edges {
				if n, ok := follow(e, at.ID); ok {
					arrive(PRef{e.ID}, n)
				}
			}
			return
		}
		var path PRef
		var walk func(n int)
		walk = func(n int) {
			if len(path) >= 1 && len(path) >= r.Min {
				arrive(path, n)
			}
			if r.Max > 0 && len(path) >= r.Max {
				return
			}
			for _, e := range g.Edges {
				to, ok := follow(e, n)
				if !ok {
					continue
				}
				used := false
				for _, x := range path {
					used = used || x == e.ID
				}
				if used {
					continue
				}
				path = append(path, e.ID)
				walk(to)
				path = path[:len(path)-1]
			}
		}
		walk(at.ID)
	}
	for _, n := range g.Nodes {
		tryNode(0, n, func() { step(0, n) })
	}
}

func merged(a, b Row) Row {
	r := Row{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		r[k] = v
	}
	return r
}

func (w *MWorld) match(c *MCtx, cl *Clause, id string, row Row) ([]Row, error) {
	sub := c.sub()
	sub.setAll(row)
	var pats []*pattern
	for _, p := range cl.Parts {
		x, err := w.pattern(sub, p)
		if err != nil {
			return nil, err
		}
		pats = append(pats, x)
	}
	var all []Row
	var rec func(i int, cc *MCtx, r Row)
	rec = func(i int, cc *MCtx, r Row) {
		if i == len(pats) {
			all = append(all, r)
			if len(all) > 2000 {
				drop("too many rows")
			}
			return
		}
		w.matchPart(cc, pats[i], func(m Row) {
			n := cc.sub()
			n.setAll(m)
			rec(i+1, n, merged(r, m))
		})
	}
	rec(0, sub, Row{})
	if rank, ok := w.hints[id]; ok {
		keys := make([]int, len(all))
		for i, r := range all {
			k := render(merged(row, r), nil)
			l := rank[k]
			if len(l) == 0 {
				w.probeMiss = k
				continue
			}
			// rows that look the same are interchangeable
			n := w.hinted[id+k]
			if n < len(l)-1 {
				if w.hinted == nil {
					w.hinted = map[string]int{}
				}
				w.hinted[id+k]++
			}
			keys[i] = l[n]
		}
		ix := make([]int, len(all))
		for i := range ix {
			ix[i] = i
		}
		sort.SliceStable(ix, func(a, b int) bool { return keys[ix[a]] < keys[ix[b]] })
		s := make([]Row, 0, len(all))
		for _, i := range ix {
			s = append(s, all[i])
		}
		all = s
	} else if len(all) > 1 {
		w.rowsMax = len(all)
	}
	w.shuffleRows(all)
	var out []Row
	for _, r := range all {
		if cl.Where != nil {
			wc := sub.sub()
			wc.setAll(r)
			v, err := w.eval1(wc, cl.Where)
			if err != nil {
				return nil, err
			}
			if b, ok := v.(bool); !ok || !b {
				continue
			}
		}
		out = append(out, merged(row, r))
	}
	if len(out) == 0 && cl.Kind == "optional" {
		r := Row{}
		for _, p := range pats {
			vars := []string{}
			for _, n := range p.nodes {
				vars = append(vars, n.Var)
			}
			for _, n := range p.rels {
				vars = append(vars, n.Var)
			}
			for _, n := range vars {
				if n != "" {
					v, _ := sub.get(n)
					r[n] = v
				}
			}
		}
		out = append(out, merged(row, r))
	}
	return out, nil
}

// create creates a pattern in the scope of c
func (w *MWorld) create(c *MCtx, parts []Part) error {
	g := w.graphs[c.g]
	mkNode := func(n NodePat) (int, error) {
		if n.Var != "" {
			if v, ok := c.get(n.Var); ok {
				if len(n.Labels) > 0 || len(n.Props) > 0 || n.Param != "" {
					return 0, errModel
				}
				r, ok := v.(NRef)
				if !ok {
					return 0, errModel
				}
				w.node(c.g, r)
				return int(r), nil
			}
		}
		props, err := w.evalProps(c, n.Props, n.Param)
		if err != nil {
			return 0, err
		}
		if props, err = w.writeProps(c, withoutNulls(props)); err != nil {
			return 0, err
		}
		x := g.newNode(n.Labels, props)
		if n.Var != "" {
			c.vars[n.Var] = NRef(x.ID)
		}
		return x.ID, nil
	}
	for _, p := range parts {
		last, err := mkNode(p.Start)
		if err != nil {
			return err
		}
		path := PRef{}
		for _, s := range p.Steps {
			to, err := mkNode(s.Node)
			if err != nil {
				return err
			}
			if s.Rel.VarLen || len(s.Rel.Types) > 1 {
				return errModel
			}
			if s.Rel.Var != "" {
				if _, ok := c.get(s.Rel.Var); ok {
					return errModel
				}
			}
			props, err := w.evalProps(c, s.Rel.Props, "")
			if err != nil {
				return err
			}
			if props, err = w.writeProps(c, withoutNulls(props)); err != nil {
				return err
			}
			label := ""
			if len(s.Rel.Types) > 0 {
				label = s.Rel.Types[0]
			}
			var e *MEdge
			if s.Rel.Dir == 1 {
				e = g.newEdge(to, last, label, props)
			} else {
				e = g.newEdge(last, to, label, props)
			}
			if s.Rel.Var != "" {
				c.vars[s.Rel.Var] = PRef{e.ID}
			}
			path = append(path, e.ID)
			last = to
		}
		if p.Path != "" {
			if len(path) == 0 {
				c.vars[p.Path] = NRef(last)
			} else {
				c.vars[p.Path] = path
			}
		}
	}
	return nil
}

func sortedKeys(m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (w *MWorld) target(c *MCtx, v string) (*MNode, error) {
	x, ok := c.get(v)
	if !ok {
		return nil, errClass{"ErrUnknownVariable"}
	}
	if x == nil {
		return nil, nil
	}
	r, ok := x.(NRef)
	if !ok {
		drop("target is not a node")
	}
	return w.node(c.g, r), nil
}

// set applies the items of SET to one row
func (w *MWorld) set(c *MCtx, items []SetItem) error {
	for _, it := range items {
		var v V
		var err error
		if it.E != nil {
			if v, err = w.eval(c, it.E); err != nil {
				return err
			}
		}
		n, err := w.target(c, it.Var)
		if err != nil {
			return err
		}
		if n == nil {
			continue
		}
		switch it.Kind {
		case "prop":
			if v == nil {
				delete(n.Props, it.Key)
				break
			}
			if _, bad := v.(NRef); bad {
				drop("element as property")
			}
			if v, err = w.writeProp(c, it.Key, v); err != nil {
				return err
			}
			n.Props[it.Key] = v
		case "eq", "add":
			var src map[string]V
			switch x := v.(type) {
			case map[string]V:
				src = x
			case NRef:
				src = w.node(c.g, x).Props
			case nil:
				drop("null source")
			default:
				return errModel
			}
			next := map[string]V{}
			for k, x := range src {
				if x == nil {
					continue
				}
				next[k] = x
			}
			if next, err = w.writeProps(c, next); err != nil {
				return err
			}
			if it.Kind == "eq" {
				n.Props = next
				break
			}
			for _, k := range sortedKeys(src) {
				if src[k] == nil {
					delete(n.Props, k)
				}
			}
			for k, x := range next {
				n.Props[k] = x
			}
		case "labels":
			for _, l := range it.Labels {
				n.Labels[l] = true
			}
		}
	}
	return nil
}

func (w *MWorld) merge(c *MCtx, cl *Clause, row Row) ([]Row, error) {
	p := cl.Parts[0]
	for i := range p.Steps {
		if _, ok := c.get(p.Steps[i].Rel.Var); ok && p.Steps[i].Rel.Var != "" {
			drop("MERGE of a bound relationship")
		}
	}
	pat, err := w.pattern(c, p)
	if err != nil {
		return nil, err
	}
	for _, n := range pat.nodes {
		if len(withoutNulls(copyProps(n.props))) < len(n.props) {
			drop("MERGE of a null property")
		}
	}
	for _, n := range pat.rels {
		if len(withoutNulls(copyProps(n.props))) < len(n.props) {
			drop("MERGE of a null property")
		}
	}
	var found []Row
	w.matchPart(c, pat, func(r Row) { found = append(found, r) })
	items := cl.OnMatch
	if len(found) == 0 {
		w.stats["merge.create"]++
		sub := c.sub()
		if err := w.create(sub, []Part{p}); err != nil {
			return nil, err
		}
		found = append(found, Row(sub.vars))
		items = cl.OnCreate
	} else {
		w.stats["merge.match"]++
		perm := w.perm(len(found))
		s := make([]Row, 0, len(found))
		for _, i := range perm {
			s = append(s, found[i])
		}
		found = s
	}
	if len(items) > 0 {
		for _, r := range found {
			sub := c.sub()
			sub.setAll(r)
			if err := w.set(sub, items); err != nil {
				return nil, err
			}
		}
	}
	var out []Row
	for _, r := range found {
		out = append(out, merged(row, r))
	}
	return out, nil
}

// update applies an updating clause to rows
func (w *MWorld) update(c *MCtx, cl *Clause, rows []Row, top bool) ([]Row, error) {
	switch cl.Kind {
	case "create":
		var out []Row
		for _, r := range rows {
			rc := c.sub()
			rc.setAll(r)
			sub := rc.sub()
			if err := w.create(sub, cl.Parts); err != nil {
				return nil, err
			}
			out = append(out, merged(r, Row(sub.vars)))
		}
		if len(out) > 0 {
			w.export(c, out)
		}
		return out, nil
	case "merge":
		var out []Row
		for _, r := range rows {
			rc := c.sub()
			rc.setAll(r)
			m, err := w.merge(rc, cl, r)
			if err != nil {
				return nil, err
			}
			out = append(out, m...)
		}
		if top && len(out) > 0 {
			w.export(c, out)
		}
		return out, nil
	}
	if top {
		return nil, errModel
	}
	switch cl.Kind {
	case "set":
		for _, r := range rows {
			sub := c.sub()
			sub.setAll(r)
			if err := w.set(sub, cl.Items); err != nil {
				return nil, err
			}
		}
	case "remove":
		for _, r := range rows {
			sub := c.sub()
			sub.setAll(r)
			for _, it := range cl.Items {
				x, ok := sub.get(it.Var)
				if !ok {
					return nil, errClass{"ErrUnknownVariable"}
				}
				if x == nil {
					continue
				}
				n, err := w.target(sub, it.Var)
				if err != nil {
					return nil, err
				}
				if it.Kind == "prop" {
					delete(n.Props, it.Key)
				} else {
					for _, l := range it.Labels {
						delete(n.Labels, l)
					}
				}
			}
		}
	case "delete":
		g := w.graphs[c.g]
		nodes := map[int]bool{}
		edges := map[int]bool{}
		for _, r := range rows {
			sub := c.sub()
			sub.setAll(r)
			for _, v := range cl.Del {
				x, ok := sub.get(v)
				if !ok {
					return nil, errClass{"ErrUnknownVariable"}
				}
				switch y := x.(type) {
				case nil:
				case NRef:
					w.node(c.g, y)
					nodes[int(y)] = true
				case PRef:
					for _, e := range y {
						if g.Edges[e].Deleted {
							drop("deleted relationship")
						}
						edges[e] = true
					}
				default:
					drop("delete of a value")
				}
			}
		}
		for _, e := range g.Edges {
			if !e.Deleted && !edges[e.ID] && (nodes[e.From] || nodes[e.To]) {
				if !cl.Detach {
					return nil, errModel
				}
				edges[e.ID] = true
			}
		}
		for _, e := range g.Edges {
			if edges[e.ID] {
				e.Deleted = true
			}
		}
		for _, n := range g.Nodes {
			if nodes[n.ID] {
				n.Deleted = true
				g.Removed++
			}
		}
		w.stats["deleted"] += len(edges) + len(nodes)
	}
	return rows, nil
}

// export notes that the variables of the last of these rows become
// variables of the calling context
func (w *MWorld) export(c *MCtx, rows []Row) {
	if len(rows) == 0 {
		return
	}
	for _, r := range rows[1:] {
		if len(r) != len(rows[0]) {
			drop("rows with different variables")
		}
	}
	last := rows[len(rows)-1]
	c.setAll(last)
	w.layers = append(w.layers, rows)
}

// query evaluates a single query
func (w *MWorld) query(c *MCtx, q *Query, id string) (rows []Row, sel *selection, err error) {
	skip, limit := -1, -1
	var ret *Clause
	for i := range q.Clauses {
		if q.Clauses[i].Kind == "return" {
			ret = &q.Clauses[i]
		}
	}
	if ret != nil {
		for i, e := range []*Expr{ret.Skip, ret.Limit} {
			if e == nil {
				continue
			}
			v, err := w.eval(c, e)
			if err != nil {
				return nil, nil, err
			}
			n, ok := v.(int)
			if !ok {
				return nil, nil, errModel
			}
			if n < 0 {
				drop("negative skip or limit")
			}
			if i == 0 {
				skip = n
			} else {
				limit = n
			}
		}
	}
	rows = []Row{{}}
	top := true
	for i := range q.Clauses {
		cl := &q.Clauses[i]
		switch cl.Kind {
		case "match", "optional":
			top = false
			var next []Row
			for _, r := range rows {
				m, err := w.match(c, cl, fmt.Sprintf("%s.%d", id, i), r)
				if err != nil {
					return nil, nil, err
				}
				next = append(next, m...)
				if len(next) > 500 {
					drop("too many rows")
				}
			}
			rows = next
			w.stats["rows"] += len(rows)
		case "return":
		default:
			if w.shuffle != nil && w.shuffle.s != reverseOrder {
				rows = append([]Row{}, rows...)
				w.shuffleRows(rows)
			}
			n, err := w.update(c, cl, rows, top)
			if err != nil {
				return nil, nil, err
			}
			rows = n
			top = false
		}
	}
	if ret == nil {
		return nil, nil, nil
	}
	n := len(rows)
	lo, hi := 0, n
	if skip > 0 {
		lo = skip
	}
	if lo > n {
		lo = n
	}
	if limit >= 0 && lo+limit < hi {
		hi = lo + limit
	}
	if ret.Star {
		return rows[lo:hi], newSelection(rows, hi-lo), nil
	}
	// The candidates for the rows returned are all rows; the functions
	// are called for the selected ones only
	var out []Row
	project := func(r Row) (Row, error) {
		rc := c.sub()
		rc.setAll(r)
		p := Row{}
		for i, x := range ret.Proj {
			v, err := w.eval(rc, x.E)
			if err != nil {
				return nil, err
			}
			k := x.As
			if k == "" {
				k = strconv.Itoa(i + 1)
			}
			p[k] = v
		}
		return p, nil
	}
	for _, r := range rows[lo:hi] {
		p, err := project(r)
		if err != nil {
			return nil, nil, err
		}
		out = append(out, p)
	}
	if hi > lo && n > 0 && len(rows[0]) > 0 {
		if w.depth == 0 {
			w.lastReturn = ret
		}
		if hi-lo < n {
			w.export(c, rows)
		} else {
			w.export(c, rows[lo:hi])
		}
	}
	if hi-lo < n {
		pure := true
		for _, x := range ret.Proj {
			x.E.walk(func(e *Expr) {
				if e.Op == "fn" && e.N != "size" && e.N != "labels" && e.N != "type" {
					pure = false
				}
			})
		}
		if pure {
			var all []Row
			for _, r := range rows {
				p, err := project(r)
				if err != nil {
					drop("error in a row that is not selected")
				}
				all = append(all, p)
			}
			return out, newSelection(all, hi-lo), nil
		}
	}
	return out, nil, nil
}

// selection describes results of which only the number is determined
type selection struct {
	from []Row
	n    int
}

func newSelection(rows []Row, n int) *selection {
	if n == len(rows) {
		return nil
	}
	return &selection{rows, n}
}

func sameValue(a, b V) bool {
	switch x := a.(type) {
	case []V:
		y, ok := b.([]V)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]V:
		y, ok := b.(map[string]V)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if z, ok := y[k]; !ok || !sameValue(x[k], z) {
				return false
			}
		}
		return true
	case PRef:
		y, ok := b.(PRef)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	case SSet:
		drop("labels in UNION")
	}
	if _, ok := b.(PRef); ok {
		return false
	}
	switch b.(type) {
	case []V, map[string]V, SSet:
		return false
	}
	return a == b
}

func sameRow(a, b Row) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		x, ok := b[k]
		if !ok || !sameValue(v, x) {
			return false
		}
	}
	return true
}

// stmt evaluates a statement in the given context. The variables it
// exports are left in w.layers.
func (w *MWorld) stmt(c *MCtx, s *Stmt, id string) ([]Row, *selection, error) {
	var out []Row
	var sel *selection
	var subs []*MCtx
	distinct := func() {
		var d []Row
		for _, r := range out {
			dup := false
			for _, x := range d {
				dup = dup || sameRow(x, r)
			}
			if !dup {
				d = append(d, r)
			}
		}
		out = d
	}
	for i := range s.Queries {
		sub := c.sub()
		subs = append(subs, sub)
		rows, sl, err := w.query(sub, &s.Queries[i], fmt.Sprintf("%s%d", id, i))
		if err != nil {
			return nil, nil, err
		}
		if sl != nil {
			if len(s.Queries) > 1 {
				drop("LIMIT in UNION")
			}
			sel = sl
		}
		if len(s.Queries) > 1 && w.depth == 0 {
			w.lastReturn = nil
		}
		out = append(out, rows...)
		if i > 0 && !s.Queries[i].All {
			distinct()
		}
	}
	return out, sel, nil
}

// render renders a row; m maps the ids of elements
func render(r Row, m *mapping) string {
	keys := make([]string, 0, len(r))
	for k := range r {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(renderV(r[k], m))
		b.WriteByte(';')
	}
	return b.String()
}

// mapping maps the ids of elements created by the code under test to
// those of the model. Both are negative before they are matched.
type mapping struct {
	nodes map[int]int
	edges map[int]int
}

func (m *mapping) node(i int) int {
	if m != nil {
		if j, ok := m.nodes[i]; ok {
			return j
		}
	}
	return i
}

func (m *mapping) edge(i int) int {
	if m != nil {
		if j, ok := m.edges[i]; ok {
			return j
		}
	}
	return i
}

func renderV(v V, m *mapping) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case float64:
		return "f" + strconv.FormatFloat(x, 'g', -1, 64)
	case string:
		return strconv.Quote(x)
	case Nat:
		return x.K + ":" + strconv.Itoa(x.I)
	case NRef:
		return "n" + strconv.Itoa(m.node(int(x)))
	case PRef:
		ids := make([]int, 0, len(x))
		for _, e := range x {
			ids = append(ids, m.edge(e))
		}
		// lpg follows a path from either end
		for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
			if ids[i] != ids[j] {
				if ids[i] > ids[j] {
					for ; i < j; i, j = i+1, j-1 {
						ids[i], ids[j] = ids[j], ids[i]
					}
				}
				break
			}
		}
		return fmt.Sprintf("r%v", ids)
	case SSet:
		return fmt.Sprintf("L%q", []string(x))
	case []V:
		var b strings.Builder
		b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(renderV(y, m))
		}
		b.WriteByte(']')
		return b.String()
	case map[string]V:
		return "{" + render(Row(x), m) + "}"
	}
	return fmt.Sprintf("?%T:%v", v, v)
}
