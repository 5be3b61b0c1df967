package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

// Result set cases: a history of operations on a few result sets, with
// consumers and filters that stop, fail or use other result sets, against
// multisets of rows.

type RsetCase struct {
	Sets []RsetSpec `json:"sets"`
	Ops  []RsetOp   `json:"rops"`
}

type RsetSpec struct {
	Rows []map[string]Val `json:"rows"`
}

type RsetOp struct {
	Kind string `json:"kind"` // union append add cols product find
	Dst  int    `json:"dst"`
	Src  []int  `json:"src,omitempty"`
	All  bool   `json:"all,omitempty"`
	// consumers stop at the Nth call, filters accept depending on Mask
	Nth    int    `json:"nth,omitempty"`
	Mask   uint64 `json:"mask,omitempty"`
	Panic  int    `json:"panic,omitempty"`
	Nested bool   `json:"nestedUse,omitempty"`
}

// rsetElems are the elements the values refer to
type rsetElems struct {
	g     *lpg.Graph
	nodes []*lpg.Node
	edges []*lpg.Edge
}

func newRsetElems() *rsetElems {
	e := &rsetElems{g: lpg.NewGraph()}
	for i := 0; i < 4; i++ {
		// same contents: only identity tells them apart
		e.nodes = append(e.nodes, e.g.NewNode([]string{"A"}, map[string]interface{}{"p": i / 2}))
	}
	for i := 0; i < 4; i++ {
		e.edges = append(e.edges, e.g.NewEdge(e.nodes[i/2], e.nodes[1-i/2], "R", nil))
	}
	return e
}

func (x *rsetElems) value(v Val) interface{} {
	switch v.K {
	case "null":
		return nil
	case "int":
		return v.I
	case "str":
		return v.S
	case "bool":
		return v.B
	case "float":
		return float64(v.I) + 0.5
	case "date":
		return cy.NewDate(time.Date(2020, 1, 1+v.I, 7*v.I%24, 0, 0, 0, time.UTC))
	case "node":
		return x.nodes[v.I%len(x.nodes)]
	case "labels":
		return lpg.NewStringSet(strings.Fields(v.S)...)
	case "path":
		// a path of one relationship, or of two, which go back and forth
		p := &lpg.Path{}
		i := v.I % len(x.edges)
		p = p.Append(lpg.PathElement{Edge: x.edges[i]})
		if v.B {
			p = p.Append(lpg.PathElement{Edge: x.edges[(i+2)%len(x.edges)]})
		}
		return p
	case "path0":
		p := &lpg.Path{}
		p.SetOnlyNode(x.nodes[v.I%len(x.nodes)])
		return p
	case "list":
		l := make([]cy.Value, 0)
		for _, y := range v.L {
			l = append(l, cy.RValue{Value: x.value(*y)})
		}
		return l
	case "map":
		m := map[string]cy.Value{}
		for k, y := range v.M {
			m[k] = cy.RValue{Value: x.value(y)}
		}
		return m
	}
	panic("value " + v.K)
}

// key is the same for equal values only
func (v Val) key() string {
	switch v.K {
	case "null":
		return "null"
	case "str":
		return fmt.Sprintf("%q", v.S)
	case "labels":
		l := strings.Fields(v.S)
		sort.Strings(l)
		return fmt.Sprint("labels", l)
	case "node":
		return fmt.Sprint("node", v.I%4)
	case "path":
		return fmt.Sprint("path", v.I%4, v.B)
	case "path0":
		return fmt.Sprint("path0 ", v.I%4)
	case "bool":
		return fmt.Sprint(v.B)
	case "list":
		var l []string
		for _, y := range v.L {
			l = append(l, y.key())
		}
		return "[" + strings.Join(l, ",") + "]"
	case "map":
		var l []string
		for k, y := range v.M {
			l = append(l, fmt.Sprintf("%q:", k)+y.key())
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return fmt.Sprint(v.K, v.I)
}

// show renders a value of the code under test in the same way
func (x *rsetElems) show(v interface{}) string {
	switch y := v.(type) {
	case nil:
		return "null"
	case int:
		return fmt.Sprint("int", y)
	case string:
		return fmt.Sprintf("%q", y)
	case bool:
		return fmt.Sprint(y)
	case float64:
		return fmt.Sprint("float", int(y-0.5))
	case cy.Date:
		return fmt.Sprint("date", int(y.Time().Sub(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC))/(24*time.Hour)))
	case *lpg.Node:
		for i, n := range x.nodes {
			if n == y {
				return fmt.Sprint("node", i)
			}
		}
	case lpg.StringSet:
		return fmt.Sprint("labels", y.SortedSlice())
	case *lpg.Path:
		if y.NumEdges() == 0 {
			for i, n := range x.nodes {
				if n == y.First() {
					return fmt.Sprint("path0 ", i)
				}
			}
		}
		for i, e := range x.edges {
			if y.NumEdges() > 0 && e == y.GetEdge(0) {
				return fmt.Sprint("path", i, y.NumEdges() == 2 && y.GetEdge(1) == x.edges[(i+2)%len(x.edges)])
			}
		}
	case []cy.Value:
		var l []string
		for _, z := range y {
			l = append(l, x.showValue(z))
		}
		return "[" + strings.Join(l, ",") + "]"
	case map[string]cy.Value:
		var l []string
		for k, z := range y {
			l = append(l, fmt.Sprintf("%q:", k)+x.showValue(z))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ",") + "}"
	}
	return fmt.Sprintf("<%T %v>", v, v)
}

func (x *rsetElems) showValue(v cy.Value) string {
	if v == nil {
		return "<no value>"
	}
	return x.show(v.Get())
}

func rowKey(row map[string]Val) string {
	var l []string
	for k, v := range row {
		l = append(l, fmt.Sprintf("%q=", k)+v.key())
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (x *rsetElems) rowShow(row map[string]cy.Value) string {
	var l []string
	for k, v := range row {
		l = append(l, fmt.Sprintf("%q=", k)+x.showValue(v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

type consumerFault struct{ n int }

func runRset(c *Case, st *Stats) *Violation {
	setupRun(c)
	x := newRsetElems()
	var real []*cy.ResultSet
	var model [][]map[string]Val
	for _, s := range c.Rset.Sets {
		r := cy.NewResultSet()
		for _, row := range s.Rows {
			m := map[string]cy.Value{}
			for k, v := range row {
				m[k] = cy.RValue{Value: x.value(v)}
			}
			r.Rows = append(r.Rows, m)
		}
		real = append(real, r)
		model = append(model, s.Rows)
	}
	keysOfRows := func(i int) []string {
		var l []string
		for _, r := range model[i] {
			l = append(l, rowKey(r))
		}
		return l
	}
	for k := range c.Rset.Ops {
		op := &c.Rset.Ops[k]
		ok := op.Dst < len(real)
		for _, s := range op.Src {
			ok = ok && s < len(real)
		}
		if !ok || len(op.Src) == 0 && (op.Kind == "union" || op.Kind == "append" || op.Kind == "add") {
			continue
		}
		fail := func(what, f string, a ...interface{}) *Violation {
			var sets []string
			for i := range model {
				sets = append(sets, fmt.Sprintf("%d: %s", i, strings.Join(keysOfRows(i), " | ")))
			}
			return &Violation{Op: k, What: what, Detail: fmt.Sprintf("%s\n  operation %s on\n    %s", fmt.Sprintf(f, a...), mustJSON(op), strings.Join(sets, "\n    "))}
		}
		var err error
		var panicked interface{}
		var combos []string
		var result cy.ResultSet
		completed := false
		mask := func(s string) bool { return op.Mask == 0 || (hashStr(s)^op.Mask)%3 != 0 }
		nested := func() {
			if op.Nested && len(combos) <= 5 {
				// use of other result sets from inside
				real[op.Dst].CartesianProduct(func(map[string]cy.Value) bool { return false })
				tmp := cy.NewResultSet()
				tmp.Union(*real[op.Dst], false)
				st.inc("fault nested use", 1)
			}
		}
		// what the operation is expected to do
		var want []string
		stop := 0
		switch op.Kind {
		case "cols":
			want = colCombos(model[op.Dst])
			if want == nil {
				continue
			}
			if op.Nth > 0 && op.Nth <= len(want) {
				stop = op.Nth
			}
		case "product":
			var lists [][]map[string]Val
			empty, full := false, false
			for _, s := range op.Src {
				if len(model[s]) == 0 {
					empty = true
					lists = append(lists, []map[string]Val{{}})
				} else {
					full = true
					lists = append(lists, model[s])
				}
			}
			// columns must differ
			seen := map[string]bool{}
			dup := false
			for _, l := range lists {
				cols := map[string]bool{}
				for _, r := range l {
					for n := range r {
						cols[n] = true
					}
				}
				for n := range cols {
					dup = dup || seen[n]
					seen[n] = true
				}
			}
			if dup || op.All && empty && !full {
				continue
			}
			if !(empty && !op.All) && len(op.Src) > 0 {
				want = setCombos(lists)
			}
		}
		if len(want) > 3000 {
			continue
		}
		if (op.Kind == "union" || op.Kind == "add") && len(model[op.Dst])+len(model[op.Src[0]]) > 100 {
			continue
		}
		// more than ten times of what comparing all rows with each other
		// takes
		rt.StartCount(30000000 + 10000*uint64(len(want)))
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(rt.Aborted); ok {
						panic(e)
					}
					panicked = e
				}
			}()
			switch op.Kind {
			case "union":
				err = real[op.Dst].Union(*real[op.Src[0]], op.All)
			case "add":
				real[op.Dst].Add(*real[op.Src[0]])
			case "append":
				if len(real[op.Src[0]].Rows) > 0 {
					err = real[op.Dst].Append(real[op.Src[0]].Rows[0])
				}
			case "cols":
				completed = real[op.Dst].CartesianProduct(func(m map[string]cy.Value) bool {
					combos = append(combos, x.rowShow(m))
					if op.Panic == len(combos) {
						panic(&consumerFault{op.Panic})
					}
					nested()
					return len(combos) != stop
				})
			case "product":
				var l []cy.ResultSet
				for _, s := range op.Src {
					l = append(l, *real[s])
				}
				result = cy.CartesianProduct(l, op.All, func(m map[string]cy.Value) bool {
					t := x.rowShow(m)
					combos = append(combos, t)
					if op.Panic == len(combos) {
						panic(&consumerFault{op.Panic})
					}
					nested()
					return mask(t)
				})
			}
		}()
		steps := rt.Stop()
		st.inc("steps", int(steps))
		st.max("largest use of the step limit in 1000", int(steps*1000/(30000000+10000*uint64(len(want)))))
		st.inc(op.Kind, 1)
		if sl, ok := panicked.(rt.StepLimit); ok {
			return fail("termination", "it did not end within %d steps", sl.Steps)
		}
		cf, injected := panicked.(*consumerFault)
		switch {
		case injected:
			st.inc("fault consumer panic", 1)
			if cf.n != op.Panic || len(combos) != op.Panic {
				return fail("panic", "the consumer was called after it failed")
			}
		case panicked != nil:
			return fail("panic", "panic: %v", panicked)
		case err != nil:
			return fail("error", "error: %v", err)
		}
		// the consumer sees every combination once, until it stops
		switch op.Kind {
		case "union":
			src := model[op.Src[0]]
			seen := map[string]bool{}
			for _, r := range model[op.Dst] {
				seen[rowKey(r)] = true
			}
			l := append([]map[string]Val{}, model[op.Dst]...)
			for _, r := range src {
				if op.All || !seen[rowKey(r)] {
					l = append(l, r)
					seen[rowKey(r)] = true
				}
			}
			model[op.Dst] = l
		case "add":
			model[op.Dst] = append(append([]map[string]Val{}, model[op.Dst]...), model[op.Src[0]]...)
		case "append":
			if src := model[op.Src[0]]; len(src) > 0 {
				// which row is the first one is not determined
				if i := pickRow(src, x.rowShow(real[op.Src[0]].Rows[0])); i >= 0 {
					model[op.Dst] = append(append([]map[string]Val{}, model[op.Dst]...), src[i])
				}
			}
		case "cols", "product":
			n := len(want)
			if stop > 0 {
				n = stop
				st.inc("fault consumer stops", 1)
			}
			if op.Panic > 0 && op.Panic <= n {
				if !injected {
					return fail("combinations", "%d of %d combinations", len(combos), n)
				}
				n = op.Panic
			}
			if len(combos) != n {
				return fail("combinations", "%d combinations instead of %d: %s", len(combos), n, strings.Join(combos, " | "))
			}
			left := multiset(want)
			for _, t := range combos {
				if left[t]--; left[t] < 0 {
					return fail("combinations", "combination %s is not expected (again)", t)
				}
			}
			if op.Kind == "cols" && !injected && completed != (stop == 0) {
				return fail("combinations", "it returns %v", completed)
			}
			if op.Kind == "product" && !injected {
				var acc, got []string
				for _, t := range want {
					if mask(t) {
						acc = append(acc, t)
					}
				}
				for _, r := range result.Rows {
					got = append(got, x.rowShow(r))
				}
				if d := diffMultiset(acc, got); d != "" {
					return fail("product", "%s", d)
				}
				// the rows are copies
				for _, r := range result.Rows {
					r["overwritten"] = cy.RValue{Value: 1}
				}
			}
		}
		desc := op.Kind
		for i := range real {
			var got []string
			for _, r := range real[i].Rows {
				got = append(got, x.rowShow(r))
			}
			if d := diffMultiset(keysOfRows(i), got); d != "" {
				return fail("rows", "result set %d: %s", i, d)
			}
			desc += fmt.Sprint(" ", hashStr(strings.Join(got, "|")))
		}
		sort.Strings(combos)
		desc += strings.Join(combos, "|")
		st.trace(hashStr(desc))
		st.S.add(hashStr(desc))
		st.evaluation(hashStr(desc), len(combos) > 0 || op.Kind == "union" || op.Kind == "append" || op.Kind == "add")
	}
	return nil
}

func pickRow(l []map[string]Val, key string) int {
	for i, r := range l {
		if rowKey(r) == key {
			return i
		}
	}
	return -1
}

// colCombos lists the combinations of the values of the columns; nil if
// the rows have different columns or it is too large
func colCombos(rows []map[string]Val) []string {
	if len(rows) == 0 {
		return []string{}
	}
	var cols []string
	for k := range rows[0] {
		cols = append(cols, k)
	}
	sort.Strings(cols)
	for _, r := range rows {
		if len(r) != len(cols) {
			return nil
		}
		for _, k := range cols {
			if _, ok := r[k]; !ok {
				return nil
			}
		}
	}
	if len(cols) == 0 {
		return []string{}
	}
	n := 1
	for range cols {
		n *= len(rows)
		if n > 2000 {
			return nil
		}
	}
	out := []string{}
	ix := make([]int, len(cols))
	for {
		m := map[string]Val{}
		for i, k := range cols {
			m[k] = rows[ix[i]][k]
		}
		out = append(out, rowKey(m))
		i := 0
		for ; i < len(ix); i++ {
			if ix[i]++; ix[i] < len(rows) {
				break
			}
			ix[i] = 0
		}
		if i == len(ix) {
			return out
		}
	}
}

func setCombos(lists [][]map[string]Val) []string {
	rows := []map[string]Val{{}}
	for _, l := range lists {
		var next []map[string]Val
		for _, a := range rows {
			for _, b := range l {
				m := map[string]Val{}
				for k, v := range a {
					m[k] = v
				}
				for k, v := range b {
					m[k] = v
				}
				next = append(next, m)
			}
			if len(next) > 4000 {
				break
			}
		}
		rows = next
	}
	var out []string
	for _, r := range rows {
		out = append(out, rowKey(r))
	}
	return out
}

func genRset(seed uint64) *Case {
	r := &rng{mix(seed, 0x5e7)}
	c := &Case{Prop: "C16", Kind: "rset", Seed: seed, Map: pick(r, 0, 1, 2, 3), MapSeed: r.next()}
	var val func(d int) Val
	val = func(d int) Val {
		k := pick(r, "null", "int", "int", "str", "bool", "float", "date", "node", "node", "path", "path", "path0", "labels", "list", "map")
		if d == 0 && (k == "list" || k == "map") {
			k = "int"
		}
		v := Val{K: k}
		switch k {
		case "int", "float", "node", "date", "path0":
			v.I = r.n(3)
		case "path":
			v.I, v.B = r.n(4), r.p(40)
		case "str":
			v.S = pick(r, strPool...)
		case "labels":
			v.S = pick(r, "A", "A B", "B A", "B", "")
		case "bool":
			v.B = r.p(50)
		case "list":
			for i := r.n(3); i > 0; i-- {
				x := val(d - 1)
				v.L = append(v.L, &x)
			}
		case "map":
			v.M = map[string]Val{}
			for i := r.n(3); i > 0; i-- {
				v.M[pick(r, "a", "b", "c")] = val(d - 1)
			}
		}
		return v
	}
	// values come from a small pool, so that rows are equal now and then
	var pool []Val
	for i := 0; i < 4+r.n(6); i++ {
		pool = append(pool, val(2))
	}
	names := []string{"a", "b", "c", "d", "e", "f"}
	k := &RsetCase{}
	for i := 0; i < 3+r.n(3); i++ {
		s := RsetSpec{}
		// sets to be combined in products have their own columns
		cols := []string{"a", "b", "c"}[:1+r.n(3)]
		if r.p(40) {
			cols = []string{names[i]}
			if r.p(40) {
				cols = append(cols, names[i]+"2")
			}
		}
		ragged := r.p(12)
		for n := pick(r, 0, 0, 1, 2, 3, 3, 4, 5); n > 0; n-- {
			row := map[string]Val{}
			for _, n := range cols {
				if ragged && r.p(40) {
					continue
				}
				row[n] = pool[r.n(len(pool))]
			}
			s.Rows = append(s.Rows, row)
			if r.p(15) {
				s.Rows = append(s.Rows, row)
			}
		}
		k.Sets = append(k.Sets, s)
	}
	for i := 10 + r.n(15); i > 0; i-- {
		op := RsetOp{Kind: pick(r, "union", "union", "cols", "product", "product", "append", "append", "add"), Dst: r.n(len(k.Sets))}
		switch op.Kind {
		case "union", "append", "add":
			op.Src = []int{r.n(len(k.Sets))}
			op.All = r.p(30)
		case "cols":
			if r.p(45) {
				op.Nth = 1 + r.n(9)
			}
		case "product":
			for n := r.n(4); n > 0; n-- {
				op.Src = append(op.Src, r.n(len(k.Sets)))
			}
			op.All = r.p(50)
			if r.p(50) {
				op.Mask = r.next() | 1
			}
		}
		if op.Kind == "cols" || op.Kind == "product" {
			if r.p(15) {
				op.Panic = 1 + r.n(6)
			}
			op.Nested = r.p(15)
		}
		k.Ops = append(k.Ops, op)
	}
	c.Rset = k
	return c
}
