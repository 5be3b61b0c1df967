package main

import (
	"fmt"
)

var (
	labelPool     = []string{"A", "B", "C", "X Y"}
	typePool      = []string{"R", "S", "T"}
	strPool       = []string{"a", "b", "ab", "", "c d", "é"}
	nodeVars      = []string{"n0", "n1", "n2", "n3", "n4", "_n"}
	createVars    = []string{"c0", "c1", "ä c"}
	edgeVars      = []string{"e0", "e1", "e2", "_e"}
	ctxVars       = []string{"v0", "v1", "v2"}
	varUniverse   = []string{"n0", "n1", "n2", "n3", "c0", "c1", "c2", "e0", "e1", "v0", "v1", "v2", "_n", "nope"}
	paramUniverse = []string{"i", "j", "s", "m", "sk", "li", "x", "nope"}
)

// Profile says what the statements of a case are like
type Profile struct {
	Stmts, Ops   int
	Read         int // weights of kinds of statements
	Create       int
	Merge        int
	Set          int
	Remove       int
	Delete       int
	Union        int
	Value        int // RETURN only
	Bad          int // failing statements
	Fns          int // per cent of expressions with function calls
	Nested       bool
	Filter       int // per cent of contexts with a filter
	Faults       int // per cent of operations with a fault
	StallFaults  bool
	PanicFaults  bool // only panics, at the first call
	Graphs       int
	Ctxs         int
	Tree         bool // contexts form a tree, statements use them directly
	CtxOps       int  // per cent of context operations
	Rel          int  // per cent of searches
	Reg          int  // per cent of registrations
	Fresh        int  // per cent of operations that parse again
	NoLimit      bool
	NoOrderDep   bool // no statements whose meaning depends on the row order
	Small        bool
	MaxN, MaxE   int
	Optional     int
	RelStmts     int
	VarLen       int
	MatchClauses int
	Focus        int // per cent of cases that repeat one or two statements
	Big          int // per cent of cases with a large graph
	Long         int // per cent of long cases
	NullParams   int // per cent of parameters that are null
	Simple       int // per cent of matches with simple patterns
}

type gen struct {
	r    *rng
	p    *Profile
	c    *Case
	uniq int
	// update: nested statements with updates may be called here
	fnsOK  bool
	nestOK bool
	edgeN  int
	usedFn []string
	// graphs have values of other Go types
	natives bool
	mixed   bool // nodes may have a property of mixed types, "m"
	big     bool
}

// more returns n, and sometimes a larger number
func (g *gen) more(n, extra int) int {
	if g.r.p(4) {
		return n + 1 + g.r.n(extra)
	}
	return n
}

type scope struct {
	nodes []string
	edges []string
	paths []string
	vals  []string // variables with integers
}

func (s scope) clone() scope {
	return scope{append([]string{}, s.nodes...), append([]string{}, s.edges...), append([]string{}, s.paths...), append([]string{}, s.vals...)}
}

func (g *gen) val(key string) Val {
	switch key {
	case "p", "q":
		return Val{K: "int", I: g.r.n(4)}
	case "s", "t":
		return Val{K: "str", S: strPool[g.r.n(len(strPool))]}
	case "b":
		return Val{K: "bool", B: g.r.p(50)}
	}
	v := Val{K: "list"}
	for i := g.r.n(3); i >= 0; i-- {
		v.L = append(v.L, vInt(g.r.n(3)))
	}
	return v
}

func (g *gen) props(max int, keys ...string) map[string]Val {
	if len(keys) == 0 {
		keys = []string{"p", "q", "s", "t", "b", "l"}
	}
	m := map[string]Val{}
	for i := g.r.n(max + 1); i > 0; i-- {
		k := keys[g.r.n(len(keys))]
		m[k] = g.val(k)
	}
	return m
}

func (g *gen) labels(max int) []string {
	var l []string
	for i := g.r.n(max + 1); i > 0; i-- {
		x := labelPool[g.r.n(len(labelPool))]
		dup := false
		for _, y := range l {
			dup = dup || x == y
		}
		if !dup {
			l = append(l, x)
		}
	}
	return l
}

func (g *gen) graph() GSpec {
	maxN, maxE := g.p.MaxN, g.p.MaxE
	if maxN == 0 {
		maxN = 7
	}
	if maxE == 0 {
		maxE = 10
	}
	gs := GSpec{}
	natives := g.r.p(25)
	g.natives = g.natives || natives
	mixed := g.r.p(20)
	g.mixed = g.mixed || mixed
	n := 1 + g.r.n(maxN)
	if g.big {
		n = 20 + g.r.n(130)
		maxE = 40 + g.r.n(100)
	}
	if g.r.p(5) {
		n = 0
	}
	for i := 0; i < n; i++ {
		gs.Nodes = append(gs.Nodes, GNode{g.labels(g.more(2, 2)), g.props(3)})
		if natives && g.r.p(50) {
			gs.Nodes[i].Props["x"] = Val{K: pick(g.r, natKinds...), I: g.r.n(4)}
		}
		if mixed && g.r.p(70) {
			gs.Nodes[i].Props["m"] = Val{K: "int", I: g.r.n(3)}
			if g.r.p(20) {
				gs.Nodes[i].Props["m"] = Val{K: "str", S: "y"}
			}
		}
	}
	if n == 0 {
		return gs
	}
	if g.r.p(12) && !g.big {
		// chains with several relationships from a node to the next
		typ := typePool[g.r.n(len(typePool))]
		for i := 0; i+1 < n && i < 5; i++ {
			for k := pick(g.r, 1, 1, 1, 2, 2, 3); k > 0; k-- {
				if g.r.p(15) {
					typ = typePool[g.r.n(len(typePool))]
				}
				gs.Edges = append(gs.Edges, GEdge{i, i + 1, typ, g.props(2, "p", "s")})
			}
		}
		maxE = 1
	}
	for i := g.r.n(maxE + 1); i > 0; i-- {
		a, b := g.r.n(n), g.r.n(n)
		if a == b && g.r.p(60) {
			b = g.r.n(n)
		}
		gs.Edges = append(gs.Edges, GEdge{a, b, typePool[g.r.n(len(typePool))], g.props(2, "p", "s")})
		if g.r.p(15) { // parallel
			gs.Edges = append(gs.Edges, gs.Edges[len(gs.Edges)-1])
		}
	}
	return gs
}

func (g *gen) fnOf(kind string) (string, bool) {
	for try := 0; try < 6; try++ {
		if len(g.c.Fns) == 0 {
			return "", false
		}
		f := g.c.Fns[g.r.n(len(g.c.Fns))]
		if f.Kind == kind {
			return f.Name, true
		}
	}
	return "", false
}

func (g *gen) intExpr(sc scope, d int) *Expr {
	if g.fnsOK && g.r.p(g.p.Fns) {
		switch g.r.n(8) {
		case 0, 1, 2:
			if f, ok := g.fnOf("id"); ok {
				return eFn(f, g.intExpr(sc, d-1))
			}
		case 3, 4:
			if f, ok := g.fnOf("inc"); ok {
				return eFn(f, g.intExpr(sc, d-1))
			}
		case 5:
			if f, ok := g.fnOf("cnt"); ok {
				var a []*Expr
				for i := g.r.n(4); i > 0; i-- {
					if len(a) > 0 && g.r.p(20) { // the same expression again
						a = append(a, a[g.r.n(len(a))].clone())
					} else if g.r.p(30) && len(sc.nodes) > 0 {
						a = append(a, eVar(pick(g.r, sc.nodes...)))
					} else if g.r.p(30) {
						a = append(a, g.strExpr(sc, d-1))
					} else {
						a = append(a, g.intExpr(sc, d-1))
					}
				}
				return eFn(f, a...)
			}
		default:
			if g.nestOK && len(g.c.Nested) > 0 {
				if f, ok := g.fnOf("nest"); ok {
					return eFn(f, eInt(g.r.n(len(g.c.Nested))), g.intExpr(sc, 0))
				}
			}
		}
	}
	if d > 0 && g.r.p(45) {
		if g.r.p(8) { // the same expression twice
			a := g.intExpr(sc, d-1)
			return eOp(pick(g.r, "+", "-", "*"), a, a.clone())
		}
		switch g.r.n(10) {
		case 7:
			return eOp(pick(g.r, "/", "%"), g.intExpr(sc, d-1), eInt(1+g.r.n(3)))
		case 8:
			e := eOp("switch", g.called(30, g.intLit(sc)))
			for i := 1 + g.r.n(3); i > 0; i-- {
				e.A = append(e.A, g.called(8, g.intLit(sc)), g.intExpr(sc, d-1))
			}
			if g.r.p(60) {
				e.A = append(e.A, g.intExpr(sc, 0))
			}
			return e
		case 9:
			if g.r.p(50) {
				return eFn("toInteger", g.intExpr(sc, d-1))
			}
			return eFn("size", g.strExpr(sc, d-1))
		case 0, 1:
			return eOp("+", g.intExpr(sc, d-1), g.intExpr(sc, d-1))
		case 2:
			return eOp("-", g.intExpr(sc, d-1), g.intExpr(sc, d-1))
		case 3:
			return eOp("*", g.intLit(sc), g.intLit(sc))
		case 4:
			return eFn("size", g.listExpr(sc, d-1))
		case 5:
			return eOp("case", eCmp(pick(g.r, "<", ">=", "="), g.intLit(sc), g.intLit(sc)), g.intExpr(sc, d-1), g.intExpr(sc, d-1))
		default:
			return eOp("index", g.listExpr(sc, d-1), g.called(20, eInt(g.r.n(4)-1)))
		}
	}
	if len(sc.edges) > 0 && g.r.p(20) {
		return eProp(pick(g.r, sc.edges...), "p")
	}
	if len(sc.nodes) > 0 && g.r.p(65) {
		if g.natives && g.r.p(30) {
			return eProp(pick(g.r, sc.nodes...), "x")
		}
		return eProp(pick(g.r, sc.nodes...), pick(g.r, "p", "q"))
	}
	return g.intLit(sc)
}

// called is the expression as the argument of a function that returns it, at
// times
func (g *gen) called(percent int, e *Expr) *Expr {
	if g.fnsOK && g.r.p(percent) {
		if f, ok := g.fnOf("id"); ok {
			return eFn(f, e)
		}
	}
	return e
}

// intLit is never null
func (g *gen) intLit(sc scope) *Expr {
	if len(sc.vals) > 0 && g.r.p(40) {
		return eVar(pick(g.r, sc.vals...))
	}
	if g.r.p(35) {
		return eParam(pick(g.r, "i", "j"))
	}
	if g.r.p(10) {
		return eOp("+", eInt(g.r.n(3)), eInt(g.r.n(3)))
	}
	if g.r.p(3) {
		return eInt(pick(g.r, 1<<40, 1<<31, 65536, -1<<33, 1000, 127, 256))
	}
	return eInt(g.r.n(5) - g.r.n(2))
}

func (g *gen) strLit() *Expr {
	if g.r.p(25) {
		return eParam("s")
	}
	return eStr(strPool[g.r.n(len(strPool))])
}

func (g *gen) strExpr(sc scope, d int) *Expr {
	if g.fnsOK && g.r.p(g.p.Fns/2) {
		if f, ok := g.fnOf("id"); ok {
			return eFn(f, g.strExpr(sc, d-1))
		}
	}
	if d > 0 && g.r.p(25) {
		switch g.r.n(6) {
		case 0:
			return eFn("trim", g.strExpr(sc, d-1))
		case 1:
			return eFn("substring", g.strExpr(sc, d-1), eInt(g.r.n(2)))
		case 2:
			return eOp("index", eFn("split", g.strExpr(sc, d-1), eStr(pick(g.r, "a", "b", " "))), eInt(g.r.n(2)))
		}
		return eOp("+", g.strExpr(sc, d-1), g.strExpr(sc, d-1))
	}
	if len(sc.edges) > 0 && g.r.p(30) {
		if g.r.p(40) {
			return eFn("type", eVar(pick(g.r, sc.edges...)))
		}
		return eProp(pick(g.r, sc.edges...), "s")
	}
	if len(sc.nodes) > 0 && g.r.p(60) {
		return eProp(pick(g.r, sc.nodes...), pick(g.r, "s", "t"))
	}
	return g.strLit()
}

func (g *gen) listExpr(sc scope, d int) *Expr {
	if len(sc.nodes) > 0 && g.r.p(25) {
		return eProp(pick(g.r, sc.nodes...), "l")
	}
	if d > 0 && g.r.p(30) {
		if g.r.p(25) {
			var a []*Expr
			for i := 0; i < 4; i++ {
				a = append(a, g.intExpr(sc, 0))
			}
			i := g.r.n(3)
			return eOp("slice", eOp("list", a...), g.called(10, eInt(i)), g.called(10, eInt(i+g.r.n(4-i))))
		}
		return eOp("+", g.listExpr(sc, d-1), g.listExpr(sc, d-1))
	}
	var a []*Expr
	for i := g.r.n(3); i >= 0; i-- {
		a = append(a, g.intExpr(sc, d-1))
	}
	return eOp("list", a...)
}

// boolExpr: where conditions; may be null
func (g *gen) boolExpr(sc scope, d int) *Expr {
	if d > 0 && g.r.p(40) {
		fns := g.fnsOK
		defer func() { g.fnsOK = fns }()
		a := g.boolExpr(sc, d-1)
		// the second operand may not be evaluated
		g.fnsOK = false
		switch g.r.n(5) {
		case 0, 1:
			return eOp("and", a, g.boolExpr(sc, d-1))
		case 2, 3:
			return eOp("or", a, g.boolExpr(sc, d-1))
		}
		if g.r.p(50) {
			return eOp("xor", a, g.boolExpr(sc, d-1))
		}
		return eOp("not", a)
	}
	switch g.r.n(11) {
	case 10:
		if g.r.p(35) {
			return eOp("in", g.strExpr(sc, 1), eOp("list", g.strLit(), g.strExpr(sc, 0)))
		}
		return eOp("in", g.intExpr(sc, 1), g.listExpr(sc, 1))
	case 0:
		return eOp(pick(g.r, "isnull", "notnull"), g.intExpr(sc, 1))
	case 1:
		return eOp(pick(g.r, "startsWith", "endsWith", "contains"), g.strExpr(sc, 1), g.strLit())
	case 2, 3:
		a := g.strExpr(sc, 1)
		return g.cmp(pick(g.r, "=", "<>", "<", "<="), a, func() *Expr { return g.strExpr(sc, 0) })
	case 4, 5:
		if g.mixed && len(sc.nodes) > 0 && g.r.p(50) {
			// may be values that cannot be compared
			return eCmp(pick(g.r, "=", "<>", "<", ">="), eProp(pick(g.r, sc.nodes...), "m"), eInt(g.r.n(3)))
		}
		if len(sc.nodes) > 0 && g.r.p(50) {
			return eCmp("=", eProp(pick(g.r, sc.nodes...), "b"), lit(vBool(g.r.p(50))))
		}
	}
	return g.cmp(pick(g.r, "=", "<>", "<", "<=", ">", ">="), g.intExpr(sc, 2), func() *Expr { return g.intExpr(sc, 1) })
}

// cmp: no functions in the second operand, as it is not evaluated if the
// first is null
func (g *gen) cmp(op string, a *Expr, b func() *Expr) *Expr {
	fns := g.fnsOK
	g.fnsOK = false
	e := eCmp(op, a, b())
	g.fnsOK = fns
	return e
}

func (g *gen) anyExpr(sc scope) *Expr {
	switch g.r.n(12) {
	case 0, 1, 2:
		return g.strExpr(sc, 2)
	case 3:
		return g.listExpr(sc, 2)
	case 4:
		if len(sc.nodes) > 0 && !g.p.NoOrderDep {
			return eFn("labels", eVar(pick(g.r, sc.nodes...)))
		}
	case 5, 6:
		if len(sc.nodes) > 0 {
			return eVar(pick(g.r, sc.nodes...))
		}
	case 7:
		if l := append(append([]string{}, sc.edges...), sc.paths...); len(l) > 0 {
			return eVar(pick(g.r, l...))
		}
	case 8:
		if len(sc.nodes) > 0 {
			return eProp(pick(g.r, sc.nodes...), pick(g.r, "p", "q", "s", "t", "b", "l"))
		}
	}
	return g.intExpr(sc, 2)
}

// pattern property: literals, parameters, properties of bound variables
func (g *gen) patProps(sc scope, keys ...string) []PropPat {
	if len(keys) == 0 {
		keys = []string{"p", "q", "s"}
	}
	k := keys[g.r.n(len(keys))]
	var e *Expr
	of := len(sc.nodes) > 0 && g.r.p(40)
	switch {
	case of && g.r.p(70):
		// the same value as in another node
		e = eProp(pick(g.r, sc.nodes...), k)
	case k == "s" || k == "t":
		e = g.strLit()
	case of:
		e = eOp("+", eProp(pick(g.r, sc.nodes...), "p"), eInt(g.r.n(2)))
	default:
		e = g.intLit(scope{})
		if e.Op == "lit" && e.V.I < 0 {
			e = eInt(0)
		}
	}
	return []PropPat{{k, e}}
}

func (g *gen) nodePat(sc, bound scope, want int) NodePat {
	n := NodePat{}
	if len(sc.nodes) > 0 && g.r.p(35) {
		n.Var = pick(g.r, sc.nodes...)
		if g.r.p(28) {
			n.Labels = g.labels(2)
		}
		return n
	}
	if g.r.p(want) {
		n.Var = nodeVars[g.r.n(len(nodeVars))]
	}
	if g.r.p(45) {
		n.Labels = g.labels(2)
	}
	if g.r.p(25) {
		n.Props = g.patProps(bound)
	} else if g.r.p(4) {
		n.Param = "mp"
	}
	return n
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// matchPart generates a pattern; sc gets its variables. bound are the
// variables of the clauses before.
func (g *gen) matchPart(sc *scope, bound scope) Part {
	p := Part{}
	inPart := []string{}
	local := sc.clone()
	node := func() NodePat {
		s := local
		s.nodes = nil
		for _, v := range local.nodes {
			if !has(inPart, v) {
				s.nodes = append(s.nodes, v)
			}
		}
		n := g.nodePat(s, bound, 75)
		if has(inPart, n.Var) {
			n.Var = "" // KF2
		}
		if n.Var != "" {
			inPart = append(inPart, n.Var)
			if !has(sc.nodes, n.Var) {
				sc.nodes = append(sc.nodes, n.Var)
			}
		}
		return n
	}
	p.Start = node()
	steps := g.more(pick(g.r, 0, 0, 1, 1, 1, 1, 2, 2, 3), 2)
	allRight := g.r.p(60)
	for i := 0; i < steps; i++ {
		r := RelPat{}
		if !allRight {
			r.Dir = pick(g.r, 0, 1, 1, 2)
		}
		if g.r.p(50) {
			r.Types = append(r.Types, typePool[g.r.n(3)])
			if g.r.p(25) {
				if t := typePool[g.r.n(3)]; t != r.Types[0] {
					r.Types = append(r.Types, t)
				}
			}
		}
		if g.r.p(15) {
			r.Props = g.patProps(bound, "p", "s")
		}
		if g.r.p(40) && g.edgeN < len(edgeVars) {
			r.Var = edgeVars[g.edgeN]
			g.edgeN++
		}
		vl := g.p.VarLen
		if vl == 0 {
			vl = 15
		}
		if g.r.p(vl) {
			r.VarLen = true
			switch g.r.n(5) {
			case 0:
				r.Min, r.Max = 1, 2
			case 1:
				r.Max = 1 + g.r.n(3)
			case 2:
				r.Min = 1 + g.r.n(2)
				if g.r.p(50) {
					r.Max = r.Min + 1
				}
			case 3:
				r.Min = 2
				r.Max = 2 + g.r.n(2)
			}
		}
		if !r.VarLen && len(bound.edges) > 0 && g.r.p(25) {
			if v := pick(g.r, bound.edges...); !has(inPart, v) {
				r.Var = v
				inPart = append(inPart, v)
			}
		}
		if r.Var != "" && !has(sc.edges, r.Var) {
			if r.VarLen {
				sc.paths = append(sc.paths, r.Var)
			} else {
				sc.edges = append(sc.edges, r.Var)
			}
		}
		p.Steps = append(p.Steps, PatStep{r, node()})
	}
	return p
}

func (p *Profile) simple() int {
	if p.Simple > 0 {
		return p.Simple
	}
	return 20
}

// simplePart generates a pattern most graphs have
func (g *gen) simplePart(sc *scope, bound scope) Part {
	p := Part{}
	var used []string
	node := func(bare bool) NodePat {
		n := NodePat{}
		if v := nodeVars[g.r.n(len(nodeVars))]; g.r.p(85) && !has(used, v) && (!has(sc.nodes, v) || g.r.p(50)) {
			n.Var = v
		}
		if n.Var != "" {
			used = append(used, n.Var)
			if !has(sc.nodes, n.Var) {
				sc.nodes = append(sc.nodes, n.Var)
			}
		}
		switch {
		case bare && g.r.p(70):
		case g.r.p(15):
			n.Labels = g.labels(1)
		case len(bound.nodes) > 0 && g.r.p(50):
			k := pick(g.r, "p", "q", "s")
			n.Props = []PropPat{{k, eProp(pick(g.r, bound.nodes...), k)}}
		case g.r.p(10):
			n.Props = g.patProps(bound)
		}
		return n
	}
	p.Start = node(false)
	if g.r.p(35) {
		r := RelPat{Dir: g.r.n(2)}
		if g.r.p(20) {
			r.Types = []string{typePool[g.r.n(3)]}
		}
		if g.r.p(30) && g.edgeN < len(edgeVars) {
			r.Var = edgeVars[g.edgeN]
			g.edgeN++
			sc.edges = append(sc.edges, r.Var)
		}
		p.Steps = append(p.Steps, PatStep{r, node(true)})
	}
	return p
}

// matches generates the reading clauses
func (g *gen) matches(sc *scope, max int) []Clause {
	var out []Clause
	n := 1
	simple := g.r.p(g.p.simple())
	if simple && max > 1 && g.r.p(60) {
		n++
	}
	for n < max && g.r.p(38) {
		n++
	}
	for i := 0; i < n; i++ {
		c := Clause{Kind: "match"}
		if i > 0 && g.r.p(g.p.Optional) {
			c.Kind = "optional"
		} else if i == 0 && g.r.p(g.p.Optional/3) {
			c.Kind = "optional"
		}
		bound := sc.clone()
		parts := 1
		if g.r.p(25) {
			parts++
		}
		for k := 0; k < parts; k++ {
			if simple {
				c.Parts = append(c.Parts, g.simplePart(sc, bound))
				continue
			}
			c.Parts = append(c.Parts, g.matchPart(sc, bound))
		}
		if g.r.p(40) && !(simple && g.r.p(60)) {
			c.Where = g.boolExpr(*sc, 2)
		}
		out = append(out, c)
	}
	return out
}

func (g *gen) ret(sc scope, kindOK bool) Clause {
	c := Clause{Kind: "return"}
	if g.r.p(15) && len(sc.nodes)+len(sc.edges)+len(sc.paths) > 0 && len(sc.vals) == 0 {
		c.Star = true
	} else {
		n := 1 + g.r.n(3)
		for i := 0; i < n; i++ {
			p := Proj{E: g.anyExpr(sc)}
			if g.r.p(40) {
				p.As = pick(g.r, "x", "y", "z z", "k")
				for _, o := range c.Proj {
					if o.As == p.As {
						p.As = ""
					}
				}
			}
			c.Proj = append(c.Proj, p)
		}
	}
	if kindOK && !g.p.NoLimit {
		num := func() *Expr {
			switch g.r.n(4) {
			case 0:
				return eParam(pick(g.r, "sk", "li"))
			case 1:
				return eInt(0)
			case 2:
				if g.r.p(15) {
					return g.called(50, eParam("s"))
				}
			}
			return g.called(35, eInt(1+g.r.n(4)))
		}
		if g.r.p(12) {
			c.Skip = num()
		}
		if g.r.p(15) {
			c.Limit = num()
		}
	}
	return c
}

func (g *gen) setItems(sc scope, n int) []SetItem {
	var out []SetItem
	if len(sc.nodes) > 1 && g.r.p(12) {
		// a node may have several of the names
		kind, key := pick(g.r, "labels", "labels", "prop"), pick(g.r, "p", "q")
		at := g.r.n(len(sc.nodes))
		for i := 2 + g.r.n(2); i > 0; i-- {
			it := SetItem{Kind: kind, Var: sc.nodes[at%len(sc.nodes)]}
			at++
			if kind == "labels" {
				it.Labels = []string{pick(g.r, labelPool...)}
			} else {
				it.Key, it.E = key, g.intExpr(sc, 1)
			}
			out = append(out, it)
		}
		return out
	}
	for i := 0; i < n; i++ {
		it := SetItem{Var: pick(g.r, sc.nodes...)}
		switch g.r.n(10) {
		case 0, 1, 2, 3, 4, 5:
			it.Kind = "prop"
			it.Key = pick(g.r, "p", "q", "s", "t", "b", "l")
			switch it.Key {
			case "p", "q":
				it.E = g.intExpr(sc, 2)
			case "s", "t":
				it.E = g.strExpr(sc, 1)
			case "b":
				it.E = lit(vBool(g.r.p(50)))
			default:
				it.E = g.listExpr(sc, 1)
			}
			if g.r.p(10) {
				it.E = lit(&Val{K: "null"})
			}
		case 6, 7:
			it.Kind = pick(g.r, "eq", "add")
			switch g.r.n(4) {
			case 0:
				it.E = eParam("m")
			case 1:
				it.E = eVar(pick(g.r, sc.nodes...))
			default:
				it.E = g.mapExpr(sc, true)
			}
		default:
			it.Kind = "labels"
			it.Labels = g.labels(pick(g.r, 1, 1, 2, 4))
			if len(it.Labels) == 0 {
				it.Labels = []string{"A"}
			}
		}
		out = append(out, it)
	}
	return out
}

func (g *gen) mapExpr(sc scope, nulls bool) *Expr {
	e := &Expr{Op: "map"}
	used := map[string]bool{}
	null, size := 15, 1+g.r.n(3)
	if nulls && g.r.p(35) {
		// remove some and set others
		null, size = 50, 2+g.r.n(4)
	}
	for i := 0; i < size; i++ {
		k := pick(g.r, "p", "q", "s", "t", "b")
		if used[k] {
			continue
		}
		used[k] = true
		if e.N != "" {
			e.N += ","
		}
		e.N += k
		var v *Expr
		switch k {
		case "p", "q":
			v = g.intLit(sc)
			if g.fnsOK && g.r.p(g.p.Fns) {
				if f, ok := g.fnOf("inc"); ok {
					v = eFn(f, v)
				}
			}
		case "b":
			v = lit(vBool(g.r.p(50)))
		default:
			v = g.strLit()
		}
		if nulls && g.r.p(null) {
			v = lit(&Val{K: "null"})
		}
		e.A = append(e.A, v)
	}
	return e
}

func (g *gen) createProps(sc scope) []PropPat {
	var out []PropPat
	used := map[string]bool{}
	for i := g.r.n(4); i > 0; i-- {
		k := pick(g.r, "p", "q", "s", "t", "b")
		if used[k] {
			continue
		}
		used[k] = true
		var e *Expr
		switch k {
		case "p", "q":
			e = g.intLit(sc)
			if len(sc.nodes) > 0 && g.r.p(30) {
				e = g.intExpr(sc, 1)
			} else if g.fnsOK && g.r.p(g.p.Fns) {
				e = g.intExpr(scope{vals: sc.vals}, 1)
			}
		case "b":
			e = lit(vBool(g.r.p(50)))
		default:
			e = g.strLit()
		}
		if g.r.p(6) {
			e = lit(&Val{K: "null"})
		}
		out = append(out, PropPat{k, e})
	}
	return out
}

func (g *gen) createParts(sc *scope) []Part {
	var out []Part
	bound := sc.clone()
	n := 1
	if g.r.p(25) {
		n++
	}
	n = g.more(n, 3)
	for i := 0; i < n; i++ {
		node := func() NodePat {
			if len(sc.nodes) > 0 && g.r.p(50) {
				return NodePat{Var: pick(g.r, sc.nodes...)}
			}
			x := NodePat{Labels: g.labels(2)}
			if g.r.p(5) {
				x.Param = "mp"
			} else {
				x.Props = g.createProps(bound)
			}
			if g.r.p(60) {
				for _, v := range createVars {
					if !has(sc.nodes, v) {
						x.Var = v
						sc.nodes = append(sc.nodes, v)
						break
					}
				}
			}
			return x
		}
		p := Part{Start: node()}
		for k := g.more(pick(g.r, 0, 1, 1, 2), 4); k > 0; k-- {
			r := RelPat{Dir: g.r.n(2), Types: []string{typePool[g.r.n(3)]}}
			if g.r.p(40) {
				r.Props = g.createProps(bound)
				var l []PropPat
				for _, x := range r.Props {
					if x.K == "p" || x.K == "s" {
						l = append(l, x)
					}
				}
				r.Props = l
			}
			if g.r.p(25) && g.edgeN < len(edgeVars) {
				r.Var = edgeVars[g.edgeN]
				g.edgeN++
				sc.edges = append(sc.edges, r.Var)
			}
			p.Steps = append(p.Steps, PatStep{r, node()})
		}
		if len(p.Steps) == 0 && has(bound.nodes, p.Start.Var) {
			p.Start = NodePat{Labels: g.labels(2), Props: g.createProps(bound)}
		}
		if i == 0 && g.r.p(8) && !has(bound.paths, "pp") {
			p.Path = "pp"
			if len(p.Steps) > 0 {
				sc.paths = append(sc.paths, "pp")
			}
		}
		out = append(out, p)
	}
	return out
}

// query generates one query of the given kind
func (g *gen) query(kind string) Query {
	q := Query{}
	sc := scope{}
	g.edgeN = 0
	maxM := g.p.MatchClauses
	if maxM == 0 {
		maxM = 2
	}
	add := func(c ...Clause) { q.Clauses = append(q.Clauses, c...) }
	simple := func() { // a small match, for updates
		if kind == "delete" && g.r.p(12) {
			// paths of several relationships
			r := RelPat{Var: "r0", VarLen: true, Min: 1 + g.r.n(3), Dir: g.r.n(2)}
			if g.r.p(60) {
				r.Max = r.Min + g.r.n(3)
			}
			if g.r.p(30) {
				r.Types = []string{typePool[g.r.n(3)]}
			}
			g.edgeN = 1
			x := Part{Start: NodePat{Var: "n0"}, Steps: []PatStep{{r, NodePat{Var: "n1"}}}}
			if g.r.p(40) {
				x.Start.Labels = g.labels(1)
			}
			sc.nodes, sc.paths = append(sc.nodes, "n0", "n1"), append(sc.paths, "r0")
			add(Clause{Kind: "match", Parts: []Part{x}})
			return
		}
		p := g.p.VarLen
		old := *g.p
		if p == 0 {
			g.p.VarLen = 6
		}
		add(g.matches(&sc, maxM)...)
		*g.p = old
		if len(sc.nodes) == 0 {
			sc.nodes = append(sc.nodes, "n0")
			add(Clause{Kind: "match", Parts: []Part{{Start: NodePat{Var: "n0"}}}})
		}
	}
	nest := g.nestOK
	switch kind {
	case "value":
		g.nestOK = true
		c := g.ret(scope{}, true)
		add(c)
		g.nestOK = nest
	case "read":
		add(g.matches(&sc, maxM+1)...)
		g.nestOK = true
		add(g.ret(sc, true))
	case "create":
		if g.r.p(65) {
			simple()
		}
		g.nestOK = true
		add(Clause{Kind: "create", Parts: g.createParts(&sc)})
		if g.r.p(15) {
			add(Clause{Kind: "create", Parts: g.createParts(&sc)})
		}
		if g.r.p(12) && len(sc.nodes) > 0 {
			add(Clause{Kind: "set", Items: g.setItems(sc, 1)})
		}
		if g.r.p(50) {
			add(g.ret(sc, true))
		}
	case "merge":
		if g.r.p(60) {
			simple()
		}
		g.nestOK = false
		c := Clause{Kind: "merge", Parts: []Part{g.mergePart(&sc)}}
		if len(sc.nodes) > 0 {
			fn := g.fnsOK
			if g.r.p(40) {
				c.OnCreate = g.setItems(sc, 1+g.r.n(2))
			}
			if g.r.p(40) {
				c.OnMatch = g.setItems(sc, 1+g.r.n(2))
			}
			g.fnsOK = fn
		}
		add(c)
		g.nestOK = true
		if g.r.p(50) {
			add(g.ret(sc, true))
		}
	case "set":
		simple()
		g.nestOK = true
		items := g.setItems(sc, g.more(1+g.r.n(3), 4))
		if g.p.Filter > 0 && g.p.Faults > 30 && g.r.p(30) {
			// a failure in the middle of an item that writes several values
			items = append(items[:g.r.n(2)], SetItem{Kind: pick(g.r, "add", "add", "eq"), Var: pick(g.r, sc.nodes...), E: g.mapExpr(sc, true)})
		}
		add(Clause{Kind: "set", Items: items})
		if g.r.p(20) {
			add(Clause{Kind: "set", Items: g.setItems(sc, 1)})
		}
		if g.r.p(40) {
			add(g.ret(sc, true))
		}
	case "remove":
		simple()
		c := Clause{Kind: "remove"}
		for i := g.more(g.r.n(3), 3); i >= 0; i-- {
			it := SetItem{Kind: "prop", Var: pick(g.r, sc.nodes...), Key: pick(g.r, "p", "q", "s", "t", "b", "l")}
			if g.r.p(40) {
				it.Kind = "labels"
				it.Labels = g.labels(2)
				if len(it.Labels) == 0 {
					it.Labels = []string{"B"}
				}
			}
			c.Items = append(c.Items, it)
		}
		add(c)
		if g.r.p(40) {
			add(g.ret(sc, true))
		}
	case "delete":
		simple()
		c := Clause{Kind: "delete", Detach: g.r.p(50)}
		l := append(append(append([]string{}, sc.nodes...), sc.edges...), sc.paths...)
		for i := g.r.n(3); i >= 0; i-- {
			if len(sc.edges) > 0 && g.r.p(40) {
				c.Del = append(c.Del, pick(g.r, sc.edges...))
			} else {
				c.Del = append(c.Del, pick(g.r, l...))
			}
		}
		add(c)
		if g.r.p(30) {
			add(Clause{Kind: "return", Proj: []Proj{{E: g.intLit(scope{})}}})
		}
	case "bad":
		switch g.r.n(7) {
		case 6:
			add(Clause{Kind: "return", Proj: []Proj{{E: eOp("div0", g.intLit(scope{}), g.intLit(scope{}))}}})
		case 0:
			add(Clause{Kind: "return", Proj: []Proj{{E: eVar("nope")}}})
		case 1:
			add(Clause{Kind: "return", Proj: []Proj{{E: eParam("nope")}}})
		case 2:
			add(Clause{Kind: "return", Proj: []Proj{{E: eFn("nofn", eInt(1))}}})
		case 3:
			simple()
			add(Clause{Kind: "set", Items: append(g.setItems(sc, 1), SetItem{Kind: "prop", Var: sc.nodes[0], Key: "p", E: eOp("+", eInt(1), lit(vBool(true)))})})
		case 4:
			simple()
			x := Part{Start: NodePat{Labels: []string{"A"}, Props: []PropPat{{"p", eInt(7)}}}}
			add(Clause{Kind: "create", Parts: []Part{x, {Start: NodePat{Labels: []string{"B"}, Props: []PropPat{{"p", eOp("-", eStr("a"), eInt(1))}}}}}})
		default:
			simple()
			add(Clause{Kind: "return", Proj: []Proj{{E: eFn("size", eVar("nope"))}}})
		}
	}
	g.nestOK = nest
	return q
}

func (g *gen) mergePart(sc *scope) Part {
	bound := sc.clone()
	props := func() []PropPat {
		var out []PropPat
		for _, x := range g.createProps(bound) {
			if x.K != "b" {
				out = append(out, x)
			}
		}
		if len(out) > 2 {
			out = out[:2]
		}
		return out
	}
	node := func(mustNew bool) NodePat {
		if !mustNew && len(bound.nodes) > 0 && g.r.p(60) {
			v := pick(g.r, bound.nodes...)
			return NodePat{Var: v}
		}
		x := NodePat{Labels: g.labels(2), Props: props()}
		if g.r.p(60) {
			for _, v := range createVars {
				if !has(sc.nodes, v) {
					x.Var = v
					sc.nodes = append(sc.nodes, v)
					break
				}
			}
		}
		return x
	}
	steps := g.r.n(2)
	p := Part{Start: node(steps == 0)}
	for i := 0; i < steps; i++ {
		r := RelPat{Dir: g.r.n(2), Types: []string{typePool[g.r.n(3)]}}
		if g.r.p(30) {
			r.Props = []PropPat{{"p", g.intLit(scope{})}}
		}
		if g.r.p(25) && g.edgeN < len(edgeVars) {
			r.Var = edgeVars[g.edgeN]
			g.edgeN++
			sc.edges = append(sc.edges, r.Var)
		}
		n := node(false)
		if n.Var != "" && n.Var == p.Start.Var {
			n.Var = ""
		}
		p.Steps = append(p.Steps, PatStep{r, n})
	}
	return p
}

func (g *gen) union() *Stmt {
	s := &Stmt{}
	n := 2
	if g.r.p(35) {
		n++
	}
	n = g.more(n, 4)
	cols := pick(g.r, 1, 1, 2, 2, 2, 3)
	upd := g.r.p(25)
	noReturn := g.r.p(25)
	structured := -1 // a column of maps or lists
	if g.r.p(35) {
		structured = g.r.n(cols)
	}
	kind := g.r.n(3)
	for i := 0; i < n; i++ {
		sc := scope{}
		g.edgeN = 0
		q := Query{All: g.r.p(35)}
		old := *g.p
		g.p.VarLen, g.p.Fns = 0, 0
		if g.r.p(80) {
			q.Clauses = g.matches(&sc, 1)
			var ok []Clause
			for _, c := range q.Clauses {
				for j := range c.Parts {
					for k := range c.Parts[j].Steps {
						c.Parts[j].Steps[k].Rel.VarLen = false
					}
				}
				ok = append(ok, c)
			}
			q.Clauses = ok
			sc.edges = append(sc.edges, sc.paths...)
			sc.paths = nil
		}
		*g.p = old
		if upd && g.r.p(50) {
			q.Clauses = append(q.Clauses, Clause{Kind: "create", Parts: g.createParts(&sc)})
		}
		if upd && noReturn && g.r.p(80) {
			if n := len(q.Clauses); n == 0 || q.Clauses[n-1].Kind != "create" {
				q.Clauses = append(q.Clauses, Clause{Kind: "create", Parts: g.createParts(&sc)})
			}
			s.Queries = append(s.Queries, q)
			continue
		}
		c := Clause{Kind: "return"}
		for k := 0; k < cols; k++ {
			e := g.anyExpr(sc)
			for e.Op == "fn" && e.N == "labels" {
				e = g.anyExpr(sc)
			}
			if k == structured {
				e = g.structExpr(kind)
			}
			c.Proj = append(c.Proj, Proj{As: fmt.Sprintf("u%d", k), E: e})
		}
		q.Clauses = append(q.Clauses, c)
		s.Queries = append(s.Queries, q)
	}
	return s
}

// structExpr is a map or list of few values, often equal to another one
func (g *gen) structExpr(kind int) *Expr {
	val := func() *Expr {
		switch g.r.n(8) {
		case 0:
			return lit(&Val{K: "null"})
		case 1:
			return g.strLit()
		}
		return eInt(g.r.n(2))
	}
	if kind == 0 || g.r.p(8) {
		e := &Expr{Op: "list"}
		for i := 1 + g.r.n(3); i > 0; i-- {
			e.A = append(e.A, val())
		}
		return e
	}
	e := &Expr{Op: "map", N: "p,q"}
	if g.r.p(20) {
		e.N = "p,s"
	}
	e.A = []*Expr{val(), val()}
	if kind == 2 {
		e.A[g.r.n(2)] = g.structExpr(g.r.n(2))
	}
	return e
}

func (g *gen) stmt() *Stmt {
	p := g.p
	w := []struct {
		k string
		n int
	}{{"read", p.Read}, {"create", p.Create}, {"merge", p.Merge}, {"set", p.Set}, {"remove", p.Remove}, {"delete", p.Delete}, {"union", p.Union}, {"value", p.Value}, {"bad", p.Bad}}
	sum := 0
	for _, x := range w {
		sum += x.n
	}
	k := g.r.n(sum)
	kind := ""
	for _, x := range w {
		if k < x.n {
			kind = x.k
			break
		}
		k -= x.n
	}
	g.fnsOK = p.Fns > 0
	var s *Stmt
	if kind == "union" {
		s = g.union()
	} else {
		s = &Stmt{Queries: []Query{g.query(kind)}}
	}
	s.Style = g.r.n(32)
	return s
}

// nested statements: reading ones and creating ones
func (g *gen) nested() *Stmt {
	g.fnsOK = false
	fns := g.p.Fns
	g.p.Fns = 0
	defer func() { g.p.Fns = fns }()
	rename := func(s *Stmt) *Stmt { return s }
	switch g.r.n(5) {
	case 0:
		return rename(&Stmt{Queries: []Query{{Clauses: []Clause{
			{Kind: "create", Parts: []Part{{Start: NodePat{Var: "zz", Labels: []string{"A"}, Props: []PropPat{{"p", eParam("x")}}}}}},
		}}}})
	case 1:
		return &Stmt{Queries: []Query{{Clauses: []Clause{
			{Kind: "match", Parts: []Part{{Start: NodePat{Var: "zz", Labels: []string{"B"}}}}},
			{Kind: "set", Items: []SetItem{{Kind: "prop", Var: "zz", Key: "q", E: eInt(g.r.n(4))}}},
			{Kind: "return", Proj: []Proj{{E: eVar("zz")}}},
		}}}}
	}
	c := Clause{Kind: "match", Parts: []Part{{Start: NodePat{Var: "zz", Labels: g.labels(1)}}}}
	if g.r.p(50) {
		c.Parts[0].Steps = []PatStep{{RelPat{Dir: g.r.n(2)}, NodePat{Var: "zy"}}}
	}
	if g.r.p(50) {
		c.Where = eCmp("=", eProp("zz", "p"), eParam("x"))
	}
	return &Stmt{Queries: []Query{{Clauses: []Clause{c, {Kind: "return", Proj: []Proj{{E: eVar("zz")}}}}}}}
}

// selfStmt makes a statement that is to become nested statement k, and
// evaluates itself with a function
func (g *gen) selfStmt(k int) *Stmt {
	r := g.r
	self := eFn("f4", eInt(k), eOp("+", eParam("i"), eInt(1)))
	ret := Clause{Kind: "return"}
	q := Query{}
	sc := eParam("i")
	switch r.n(6) {
	case 4, 5:
		// updates of all rows, of which some evaluate the statement again
		x := Part{Start: NodePat{Var: "zz", Labels: g.labels(1)}}
		names := []string{"zz"}
		if r.p(40) {
			x.Steps = []PatStep{{RelPat{Dir: r.n(2)}, NodePat{Var: "zy"}}}
			names = append(names, "zy")
		}
		q.Clauses = append(q.Clauses, Clause{Kind: "match", Parts: []Part{x}})
		arg := func() *Expr {
			return pick(r, eParam("i"), eParam("i"), eOp("+", eParam("i"), eInt(1)), eFn("f1", eParam("i")), eProp("zz", "p"))
		}
		c := Clause{Kind: "set"}
		for i := 1 + r.n(3); i > 0; i-- {
			c.Items = append(c.Items, SetItem{Kind: "prop", Var: pick(r, names...), Key: pick(r, "p", "q"), E: arg()})
		}
		at := r.n(len(c.Items) + 1)
		it := SetItem{Kind: "prop", Var: "zz", Key: pick(r, "p", "q", "s"), E: self}
		if r.p(20) {
			it = SetItem{Kind: "add", Var: "zz", E: &Expr{Op: "map", N: "q,s", A: []*Expr{arg(), self}}}
		}
		c.Items = append(c.Items[:at:at], append([]SetItem{it}, c.Items[at:]...)...)
		q.Clauses = append(q.Clauses, c)
		if r.p(60) {
			ret.Proj = append(ret.Proj, Proj{E: eParam("i")}, Proj{E: eProp("zz", "p")})
			q.Clauses = append(q.Clauses, ret)
		}
		return &Stmt{Queries: []Query{q}, Style: r.n(32)}
	case 0:
		q.Clauses = append(q.Clauses, Clause{Kind: "match", Parts: []Part{{Start: NodePat{Var: "zz", Labels: g.labels(1), Props: []PropPat{{pick(r, "p", "q"), eParam("i")}}}}}})
		sc = eProp("zz", pick(r, "p", "q", "s"))
	case 1:
		n := NodePat{Var: "zz", Labels: []string{"A"}, Props: []PropPat{{"p", eParam("i")}, {"q", self}}}
		q.Clauses = append(q.Clauses, Clause{Kind: "create", Parts: []Part{{Start: n}}})
		sc = eProp("zz", "q")
	}
	for i := r.n(3); i >= 0; i-- {
		e := pick(r, sc, eParam("i"), eFn("f2", sc, eParam("i")), eFn("f1", eParam("i")), eFn("f0", self), self)
		ret.Proj = append(ret.Proj, Proj{E: e})
	}
	if q.Clauses == nil || q.Clauses[0].Kind == "match" {
		at := r.n(len(ret.Proj) + 1)
		ret.Proj = append(ret.Proj[:at:at], append([]Proj{{E: pick(r, self, eFn("f2", self, eParam("i")), eFn("f2", sc, self))}}, ret.Proj[at:]...)...)
	}
	q.Clauses = append(q.Clauses, ret)
	return &Stmt{Queries: []Query{q}, Style: r.n(32)}
}

func (g *gen) fns() {
	kinds := []string{"id", "inc", "cnt", "id"}
	for i, k := range kinds {
		f := FnDef{Name: fmt.Sprintf("f%d", i), Kind: k, Ver: 1 + g.r.n(3), Min: 1, Max: 1, ByValue: g.r.p(50)}
		if k == "cnt" {
			f.Min, f.Max = g.r.n(2), pick(g.r, -1, 3)
		}
		f.Twice = !f.ByValue && g.r.p(50)
		g.c.Fns = append(g.c.Fns, f)
	}
	if g.p.Nested {
		g.c.Fns = append(g.c.Fns, FnDef{Name: "f4", Kind: "nest", Ver: g.r.n(2), Min: 1, Max: 2, ByValue: g.r.p(50)})
	}
}

func (g *gen) params() map[string]Val {
	m := map[string]Val{}
	m["i"] = Val{K: "int", I: g.r.n(4)}
	m["j"] = Val{K: "int", I: g.r.n(4)}
	m["s"] = Val{K: "str", S: pick(g.r, strPool...)}
	m["sk"] = Val{K: "int", I: g.r.n(3)}
	m["li"] = Val{K: "int", I: g.r.n(4)}
	mm := g.props(2, "p", "q", "s", "t", "b")
	if g.r.p(12) {
		mm[pick(g.r, "p", "q", "s", "t", "b")] = Val{K: "null"}
	}
	m["m"] = Val{K: "map", M: mm}
	m["mp"] = Val{K: "map", M: g.props(2, "p", "s")}
	if g.p.NullParams > 0 {
		for _, k := range []string{"i", "j", "s"} {
			if g.r.p(g.p.NullParams) {
				m[k] = Val{K: "null"}
			}
		}
	}
	return m
}

func (g *gen) relPart() Part {
	for {
		sc := scope{}
		g.edgeN = 0
		p := g.matchPart(&sc, scope{})
		if len(p.Steps) == 0 {
			continue
		}
		clean := func(n *NodePat) {
			n.Param = ""
			if n.Var != "" {
				n.Var = ""
			}
			for _, x := range n.Props {
				if x.E.Op != "lit" {
					n.Props = nil
					break
				}
			}
		}
		clean(&p.Start)
		nodes := []*NodePat{&p.Start}
		for i := range p.Steps {
			p.Steps[i].Rel.Var = ""
			for _, x := range p.Steps[i].Rel.Props {
				if x.E.Op != "lit" {
					p.Steps[i].Rel.Props = nil
					break
				}
			}
			clean(&p.Steps[i].Node)
			nodes = append(nodes, &p.Steps[i].Node)
		}
		a := 0
		if g.r.p(20) {
			a = g.r.n(len(nodes))
		}
		nodes[a].Var = "this"
		if g.r.p(90) {
			b := len(nodes) - 1
			if g.r.p(20) || b == a {
				b = g.r.n(len(nodes))
			}
			if b != a {
				nodes[b].Var = "target"
			}
		}
		return p
	}
}

// genHist generates a history
func genHist(prop string, seed uint64, p Profile) *Case {
	c := &Case{Prop: prop, Kind: "hist", Seed: seed}
	r := &rng{seed}
	g := &gen{r: r, p: &p, c: c}
	if p.Big > 0 && r.p(p.Big) {
		g.big = true
		p.Ops, p.Stmts, p.MatchClauses, p.VarLen = 10, 5, 1, 1
	} else if p.Long > 0 && r.p(p.Long) {
		p.Ops = 350
		p.Delete += 15
		p.MatchClauses = 1
		p.Fresh = 0
	}
	ng := 1
	if p.Graphs > 1 {
		ng = 1 + r.n(p.Graphs)
	}
	for i := 0; i < ng; i++ {
		c.Graphs = append(c.Graphs, g.graph())
	}
	nc := 1
	if p.Ctxs > 1 {
		nc = 1 + r.n(p.Ctxs)
	}
	if nc < ng {
		nc = ng
	}
	deep := p.Tree && p.Ctxs > 1 && r.p(4)
	if deep { // a long chain
		nc += 8 + r.n(30)
	}
	for i := 0; i < nc; i++ {
		cs := CtxSpec{Parent: -1, Graph: i % ng, Filter: r.p(p.Filter)}
		if deep && i >= ng {
			cs.Parent = i - 1
			cs.Filter = false
			cs.Graph = c.Ctxs[cs.Parent].Graph
		} else if i >= ng && p.Tree && r.p(80) {
			cs.Parent = r.n(i)
			cs.Filter = false
			cs.Graph = c.Ctxs[cs.Parent].Graph
			if r.p(60) {
				cs.Params = g.params()
				for _, k := range sortedVals(cs.Params) {
					if r.p(60) {
						delete(cs.Params, k)
					}
				}
			}
		} else {
			cs.Params = g.params()
		}
		c.Ctxs = append(c.Ctxs, cs)
	}
	if p.Fns > 0 {
		g.fns()
		if p.Nested {
			for i := 0; i < 3; i++ {
				c.Nested = append(c.Nested, g.nested())
			}
		}
	}
	if p.Reg > 0 {
		c.Fns = append(c.Fns, FnDef{Name: "late0", Kind: "id", Ver: 1, Min: 1, Max: 1})
	}
	if p.Focus > 0 && r.p(p.Focus) {
		// the same statements over and over, most often failing
		p.Stmts = 1 + r.n(2)
		p.Faults, p.Fresh, p.Rel, p.CtxOps, p.Reg = 55, 0, p.Rel/2, p.CtxOps/2, p.Reg/2
		if p.Fns < 40 {
			p.Fns = 40
		}
		for try := 0; try < 12 && len(c.Stmts) < p.Stmts; try++ {
			x := g.stmt()
			fns := false
			x.exprs(func(e *Expr) { fns = fns || e.Op == "fn" && e.N[0] == 'f' })
			if fns {
				c.Stmts = append(c.Stmts, x)
			}
		}
		if r.p(50) {
			p.PanicFaults = true
		}
	}
	for len(c.Stmts) < p.Stmts {
		c.Stmts = append(c.Stmts, g.stmt())
	}
	if len(c.Nested) > 0 && r.p(40) {
		// a statement a function evaluates again while it is evaluated
		x := g.selfStmt(len(c.Nested))
		c.Nested = append(c.Nested, x)
		c.Stmts[r.n(len(c.Stmts))] = x
	}
	if p.Reg > 0 { // registered later
		c.Fns = c.Fns[:len(c.Fns)-1]
	}
	for i := 0; i < p.RelStmts; i++ {
		c.Parts = append(c.Parts, g.relPart())
	}
	nops := p.Ops/2 + r.n(p.Ops/2+1)
	for i := 0; i < nops; i++ {
		c.Ops = append(c.Ops, g.op())
	}
	c.MapSeed = r.next()
	c.Map = pick(r, 0, 1, 2, 2)
	if r.p(12) {
		c.Wrap = 1 + r.n(3)
	}
	if r.p(25) {
		c.Wrap |= 4
	}
	return c
}

func (g *gen) op() Op {
	r, c, p := g.r, g.c, g.p
	op := Op{Ctx: r.n(len(c.Ctxs))}
	if r.p(p.CtxOps) {
		switch r.n(6) {
		case 0, 1:
			op.Kind = "setvar"
			op.Name = pick(r, varUniverse[:12]...)
			if r.p(70) && op.Name[0] != 'v' && op.Name[0] != 'e' {
				k := r.n(20)
				op.Node = &k
			} else {
				op.Name = pick(r, ctxVars...)
				op.Val = &Val{K: "int", I: r.n(4)}
				if p.NullParams > 0 && r.p(10) {
					op.Val = &Val{K: "null"}
				}
			}
		case 2, 3:
			op.Kind = "rmvar"
			op.Name = pick(r, varUniverse[:12]...)
		default:
			op.Kind = "setparam"
			op.Name = pick(r, "i", "j", "s", "m", "sk", "li")
			v := g.params()[op.Name]
			op.Val = &v
		}
		return op
	}
	if r.p(p.Reg) {
		op.Kind = "reg"
		if r.p(40) {
			op.Fn = &FnDef{Name: "late0", Kind: "id", Ver: 1 + r.n(5), Min: 1, Max: 1, ByValue: r.p(50)}
		} else {
			f := c.Fns[r.n(len(c.Fns))]
			if f.Kind != "nest" {
				f.Ver = 1 + r.n(5)
				f.ByValue = r.p(50)
				if f.Kind == "cnt" {
					f.Min, f.Max = r.n(3), pick(r, -1, 2, 3)
				}
			}
			op.Fn = &f
		}
		return op
	}
	if len(c.Parts) > 0 && r.p(p.Rel) {
		op.Kind = "rel"
		op.S = r.n(len(c.Parts))
		op.Graph = r.n(len(c.Graphs))
		k := r.n(20)
		op.Node = &k
		op.Fresh = r.p(p.Fresh)
		return op
	}
	op.Kind = "stmt"
	op.S = r.n(len(c.Stmts))
	op.Fresh = r.p(p.Fresh)
	op.Sub = !p.Tree || r.p(35)
	if op.Sub && r.p(60) {
		op.Params = g.params()
	}
	if r.p(p.Faults) {
		f := Fault{Nth: pick(r, 1, 1, 1, 2, 2, 3), Kind: pick(r, "err", "panic")}
		if r.p(20) {
			f.Nth = 1 + r.n(8)
		}
		// a fault the statement can meet
		var fns []string
		c.Stmts[op.S].exprs(func(e *Expr) {
			if e.Op == "fn" && e.N[0] == 'f' {
				fns = append(fns, e.N)
			}
		})
		filter := p.Filter > 0 && c.Stmts[op.S].hasUpdates()
		switch {
		case filter && (len(fns) == 0 || r.p(50)):
			f.Where, f.Name, f.Kind = "filter", pick(r, "p", "q", "s", "t", "b", "l"), pick(r, "panic", "panic", "panic", "nest")
			if k := c.Stmts[op.S].writtenKeys(); len(k) > 0 {
				f.Name = pick(r, k...)
			}
			op.Faults = append(op.Faults, f)
		case len(fns) > 0:
			f.Where, f.Name = "fn", pick(r, fns...)
			op.Faults = append(op.Faults, f)
		}
		if p.PanicFaults {
			for i := range op.Faults {
				op.Faults[i].Kind, op.Faults[i].Nth = "panic", 1
			}
		}
		if p.StallFaults && len(op.Faults) > 0 {
			last := &op.Faults[len(op.Faults)-1]
			if r.p(75) {
				last.Kind = "stall"
				last.Nth = 1 + r.n(2)
			}
		}
	}
	return op
}
