package main

import (
	"fmt"
	"strconv"
	"strings"
)

// The statements a case consists of are kept as trees, so that the model
// can evaluate them without parsing anything, and are rendered to text
// for the code under test.

// Val is a literal
type Val struct {
	K string         `json:"k"` // null int str bool float list map
	I int            `json:"i,omitempty"`
	S string         `json:"s,omitempty"`
	B bool           `json:"b,omitempty"`
	F float64        `json:"f,omitempty"`
	L []*Val         `json:"l,omitempty"`
	M map[string]Val `json:"m,omitempty"`
}

// Expr is an expression
type Expr struct {
	Op string  `json:"op"`
	N  string  `json:"n,omitempty"`
	V  *Val    `json:"v,omitempty"`
	A  []*Expr `json:"a,omitempty"`
}

// PropPat is key: expression
type PropPat struct {
	K string `json:"k"`
	E *Expr  `json:"e"`
}

// NodePat is a node pattern
type NodePat struct {
	Var    string    `json:"var,omitempty"`
	Labels []string  `json:"labels,omitempty"`
	Props  []PropPat `json:"props,omitempty"`
	// Param: the properties are given by this parameter
	Param string `json:"param,omitempty"`
}

// RelPat is a relationship pattern
type RelPat struct {
	Var    string    `json:"var,omitempty"`
	Types  []string  `json:"types,omitempty"`
	Dir    int       `json:"dir,omitempty"` // 0 right, 1 left, 2 undirected
	Props  []PropPat `json:"props,omitempty"`
	VarLen bool      `json:"varLen,omitempty"`
	Min    int       `json:"min,omitempty"` // 0: not given
	Max    int       `json:"max,omitempty"` // 0: not given
}

// Part is one pattern: len(Nodes) == len(Rels)+1
type Part struct {
	Path  string    `json:"path,omitempty"` // path variable
	Start NodePat   `json:"start"`
	Steps []PatStep `json:"steps,omitempty"`
}

// PatStep is a relationship and the node after it
type PatStep struct {
	Rel  RelPat  `json:"rel"`
	Node NodePat `json:"node"`
}

// SetItem is an item of SET
type SetItem struct {
	Kind   string   `json:"kind"` // prop eq add labels
	Var    string   `json:"var"`
	Key    string   `json:"key,omitempty"`
	E      *Expr    `json:"e,omitempty"`
	Labels []string `json:"labels,omitempty"`
}

// Clause is a clause of a query
type Clause struct {
	Kind     string    `json:"kind"` // match optional create merge set remove delete return
	Parts    []Part    `json:"parts,omitempty"`
	Where    *Expr     `json:"where,omitempty"`
	Items    []SetItem `json:"items,omitempty"` // set, remove
	OnCreate []SetItem `json:"onCreate,omitempty"`
	OnMatch  []SetItem `json:"onMatch,omitempty"`
	Del      []string  `json:"del,omitempty"`
	Detach   bool      `json:"detach,omitempty"`
	Star     bool      `json:"star,omitempty"`
	Proj     []Proj    `json:"proj,omitempty"`
	Skip     *Expr     `json:"skip,omitempty"`
	Limit    *Expr     `json:"limit,omitempty"`
}

// Proj is an item of RETURN
type Proj struct {
	As string `json:"as,omitempty"`
	E  *Expr  `json:"e"`
}

// Query is a single query
type Query struct {
	Clauses []Clause `json:"clauses"`
	All     bool     `json:"all,omitempty"` // UNION ALL before this query
}

// Stmt is a statement
type Stmt struct {
	Queries []Query `json:"queries"`
	// Style changes the way the text is written, not its meaning
	Style int `json:"style,omitempty"`
}

func vInt(i int) *Val       { return &Val{K: "int", I: i} }
func vStr(s string) *Val    { return &Val{K: "str", S: s} }
func vBool(b bool) *Val     { return &Val{K: "bool", B: b} }
func lit(v *Val) *Expr      { return &Expr{Op: "lit", V: v} }
func eInt(i int) *Expr      { return lit(vInt(i)) }
func eStr(s string) *Expr   { return lit(vStr(s)) }
func eVar(n string) *Expr   { return &Expr{Op: "var", N: n} }
func eParam(n string) *Expr { return &Expr{Op: "param", N: n} }
func eProp(v, k string) *Expr {
	return &Expr{Op: "prop", N: k, A: []*Expr{eVar(v)}}
}
func eOp(op string, a ...*Expr) *Expr      { return &Expr{Op: op, A: a} }
func eCmp(op string, a, b *Expr) *Expr     { return &Expr{Op: "cmp", N: op, A: []*Expr{a, b}} }
func eFn(name string, args ...*Expr) *Expr { return &Expr{Op: "fn", N: name, A: args} }
func (e *Expr) walk(f func(*Expr))         { f(e); e.walkArgs(f) }
func (e *Expr) walkArgs(f func(*Expr)) {
	for _, a := range e.A {
		a.walk(f)
	}
}

// clone copies the expression
func (e *Expr) clone() *Expr {
	x := *e
	x.A = nil
	for _, a := range e.A {
		x.A = append(x.A, a.clone())
	}
	return &x
}

type printer struct {
	strings.Builder
	style int
}

func (p *printer) kw(s string) {
	if p.style&1 != 0 {
		s = strings.ToLower(s)
	}
	p.WriteString(s)
}

func name(s string) string {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
			return "`" + s + "`"
		}
	}
	return s
}

func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch c {
		case '\\', '"':
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) val(v *Val) {
	switch v.K {
	case "null":
		p.WriteString("null")
	case "int":
		if v.I < 0 {
			p.WriteString("(" + strconv.Itoa(v.I) + ")")
		} else {
			p.WriteString(strconv.Itoa(v.I))
		}
	case "str":
		p.WriteString(quote(v.S))
	case "bool":
		p.WriteString(strconv.FormatBool(v.B))
	case "float":
		p.WriteString(strconv.FormatFloat(v.F, 'f', 3, 64))
	case "list":
		p.WriteString("[")
		for i, x := range v.L {
			if i > 0 {
				p.WriteString(", ")
			}
			p.val(x)
		}
		p.WriteString("]")
	default:
		panic("literal " + v.K)
	}
}

func (p *printer) expr(e *Expr) {
	par := func(f func()) { p.WriteString("("); f(); p.WriteString(")") }
	bin := func(op string) {
		par(func() {
			for i, a := range e.A {
				if i > 0 {
					p.WriteString(" " + op + " ")
				}
				p.expr(a)
			}
		})
	}
	switch e.Op {
	case "lit":
		p.val(e.V)
	case "param":
		p.WriteString("$" + e.N)
	case "var":
		p.WriteString(name(e.N))
	case "prop":
		p.expr(e.A[0])
		p.WriteString("." + name(e.N))
	case "cmp":
		bin(e.N)
	case "and", "or", "xor":
		bin(map[bool]string{true: e.Op, false: strings.ToUpper(e.Op)}[p.style&1 != 0])
	case "not":
		par(func() { p.kw("NOT "); p.expr(e.A[0]) })
	case "isnull":
		par(func() { p.expr(e.A[0]); p.kw(" IS NULL") })
	case "notnull":
		par(func() { p.expr(e.A[0]); p.kw(" IS NOT NULL") })
	case "+", "-", "*", "/", "%":
		bin(e.Op)
	case "neg":
		par(func() { p.WriteString("-"); p.expr(e.A[0]) })
	case "case": // when then ... else
		par(func() {
			p.kw("CASE")
			i := 0
			for ; i+1 < len(e.A); i += 2 {
				p.kw(" WHEN ")
				p.expr(e.A[i])
				p.kw(" THEN ")
				p.expr(e.A[i+1])
			}
			if i < len(e.A) {
				p.kw(" ELSE ")
				p.expr(e.A[i])
			}
			p.kw(" END")
		})
	case "div0":
		p.WriteString("(")
		p.expr(e.A[0])
		p.WriteString(" / 0 * ")
		p.expr(e.A[1])
		p.WriteString(")")
	case "list":
		p.WriteString("[")
		for i, a := range e.A {
			if i > 0 {
				p.WriteString(", ")
			}
			p.expr(a)
		}
		p.WriteString("]")
	case "map":
		p.WriteString("{")
		for i, k := range strings.Split(e.N, ",") {
			if i > 0 {
				p.WriteString(", ")
			}
			p.WriteString(name(k) + ": ")
			p.expr(e.A[i])
		}
		p.WriteString("}")
	case "index":
		par(func() { p.expr(e.A[0]); p.WriteString("["); p.expr(e.A[1]); p.WriteString("]") })
	case "startsWith":
		par(func() { p.expr(e.A[0]); p.kw(" STARTS WITH "); p.expr(e.A[1]) })
	case "endsWith":
		par(func() { p.expr(e.A[0]); p.kw(" ENDS WITH "); p.expr(e.A[1]) })
	case "contains":
		par(func() { p.expr(e.A[0]); p.kw(" CONTAINS "); p.expr(e.A[1]) })
	case "in":
		par(func() { p.expr(e.A[0]); p.kw(" IN "); p.expr(e.A[1]) })
	case "slice":
		par(func() {
			p.expr(e.A[0])
			p.WriteString("[")
			p.expr(e.A[1])
			p.WriteString("..")
			p.expr(e.A[2])
			p.WriteString("]")
		})
	case "switch": // test, when then ... else
		par(func() {
			p.kw("CASE ")
			p.expr(e.A[0])
			i := 1
			for ; i+1 < len(e.A); i += 2 {
				p.kw(" WHEN ")
				p.expr(e.A[i])
				p.kw(" THEN ")
				p.expr(e.A[i+1])
			}
			if i < len(e.A) {
				p.kw(" ELSE ")
				p.expr(e.A[i])
			}
			p.kw(" END")
		})
	case "fn":
		p.WriteString(fnName(e.N) + "(")
		for i, a := range e.A {
			if i > 0 {
				p.WriteString(", ")
			}
			p.expr(a)
		}
		p.WriteString(")")
	default:
		panic("expression " + e.Op)
	}
}

func (p *printer) props(l []PropPat, param string) {
	if param != "" {
		p.WriteString(" $" + param)
		return
	}
	if len(l) == 0 {
		return
	}
	p.WriteString(" {")
	for i, x := range l {
		if i > 0 {
			p.WriteString(", ")
		}
		p.WriteString(name(x.K) + ": ")
		p.expr(x.E)
	}
	p.WriteString("}")
}

func (p *printer) labels(l []string) {
	for _, x := range l {
		p.WriteString(":" + name(x))
	}
}

func (p *printer) node(n NodePat) {
	p.WriteString("(")
	if n.Var != "" {
		p.WriteString(name(n.Var))
	}
	p.labels(n.Labels)
	p.props(n.Props, n.Param)
	p.WriteString(")")
}

func (p *printer) rel(r RelPat) {
	both := r.Dir == 2 && p.style&8 != 0
	if r.Dir == 1 || both {
		p.WriteString("<")
	}
	if p.style&16 != 0 && r.Var == "" && len(r.Types) == 0 && len(r.Props) == 0 && !r.VarLen {
		p.WriteString("--")
		if r.Dir == 0 || both {
			p.WriteString(">")
		}
		return
	}
	p.WriteString("-[")
	if r.Var != "" {
		p.WriteString(name(r.Var))
	}
	for i, t := range r.Types {
		if i == 0 {
			p.WriteString(":")
		} else {
			p.WriteString("|")
		}
		p.WriteString(name(t))
	}
	if r.VarLen {
		p.WriteString("*")
		switch {
		case r.Min > 0 && r.Min == r.Max:
			p.WriteString(strconv.Itoa(r.Min))
		case r.Min > 0 || r.Max > 0:
			if r.Min > 0 {
				p.WriteString(strconv.Itoa(r.Min))
			}
			p.WriteString("..")
			if r.Max > 0 {
				p.WriteString(strconv.Itoa(r.Max))
			}
		}
	}
	p.props(r.Props, "")
	p.WriteString("]-")
	if r.Dir == 0 || both {
		p.WriteString(">")
	}
}

func (p *printer) part(x Part) {
	if x.Path != "" {
		p.WriteString(name(x.Path) + " = ")
	}
	p.node(x.Start)
	for _, s := range x.Steps {
		p.rel(s.Rel)
		p.node(s.Node)
	}
}

func (p *printer) parts(l []Part) {
	for i, x := range l {
		if i > 0 {
			p.WriteString(", ")
		}
		p.part(x)
	}
}

func (p *printer) setItems(l []SetItem) {
	for i, x := range l {
		if i > 0 {
			p.WriteString(", ")
		}
		p.WriteString(name(x.Var))
		switch x.Kind {
		case "prop":
			p.WriteString("." + name(x.Key) + " = ")
			p.expr(x.E)
		case "eq":
			p.WriteString(" = ")
			p.expr(x.E)
		case "add":
			p.WriteString(" += ")
			p.expr(x.E)
		case "labels":
			p.labels(x.Labels)
		}
	}
}

func (p *printer) clause(c Clause) {
	switch c.Kind {
	case "match", "optional":
		if c.Kind == "optional" {
			p.kw("OPTIONAL ")
		}
		p.kw("MATCH ")
		p.parts(c.Parts)
		if c.Where != nil {
			p.kw(" WHERE ")
			p.expr(c.Where)
		}
	case "create":
		p.kw("CREATE ")
		p.parts(c.Parts)
	case "merge":
		p.kw("MERGE ")
		p.parts(c.Parts[:1])
		on := func(w string, l []SetItem) {
			if len(l) > 0 {
				p.kw(" ON " + w + " SET ")
				p.setItems(l)
			}
		}
		if p.style&2 != 0 {
			on("MATCH", c.OnMatch)
			on("CREATE", c.OnCreate)
		} else {
			on("CREATE", c.OnCreate)
			on("MATCH", c.OnMatch)
		}
	case "set":
		p.kw("SET ")
		p.setItems(c.Items)
	case "remove":
		p.kw("REMOVE ")
		for i, x := range c.Items {
			if i > 0 {
				p.WriteString(", ")
			}
			p.WriteString(name(x.Var))
			if x.Kind == "prop" {
				p.WriteString("." + name(x.Key))
			} else {
				p.labels(x.Labels)
			}
		}
	case "delete":
		if c.Detach {
			p.kw("DETACH ")
		}
		p.kw("DELETE ")
		for i, x := range c.Del {
			if i > 0 {
				p.WriteString(", ")
			}
			p.WriteString(name(x))
		}
	case "return":
		p.kw("RETURN ")
		if c.Star {
			p.WriteString("*")
		}
		for i, x := range c.Proj {
			if i > 0 {
				p.WriteString(", ")
			}
			p.expr(x.E)
			if x.As != "" {
				p.kw(" AS ")
				p.WriteString(name(x.As))
			}
		}
		if c.Skip != nil {
			p.kw(" SKIP ")
			p.expr(c.Skip)
		}
		if c.Limit != nil {
			p.kw(" LIMIT ")
			p.expr(c.Limit)
		}
	default:
		panic("clause " + c.Kind)
	}
}

// Text renders the statement
func (s *Stmt) Text() string {
	p := &printer{style: s.Style}
	for i, q := range s.Queries {
		if i > 0 {
			p.kw(" UNION ")
			if q.All {
				p.kw("ALL ")
			}
		}
		for j, c := range q.Clauses {
			if j > 0 {
				if s.Style&4 != 0 {
					p.WriteString("\n")
				} else {
					p.WriteString(" ")
				}
			}
			p.clause(c)
		}
	}
	return p.String()
}

// Text renders the pattern
func (x Part) Text() string {
	p := &printer{style: len(x.Steps) * 8 & 24}
	p.part(x)
	return p.String()
}

func (e *Expr) String() string {
	p := &printer{}
	p.expr(e)
	return p.String()
}

func (v *Val) String() string { return fmt.Sprint(v.rt()) }

// hasUpdates tells if the statement can change the graph
func (s *Stmt) hasUpdates() bool {
	for _, q := range s.Queries {
		for _, c := range q.Clauses {
			switch c.Kind {
			case "create", "merge", "set", "remove", "delete":
				return true
			}
		}
	}
	return false
}

// exprs calls f for every expression of the statement
func (s *Stmt) exprs(f func(*Expr)) {
	w := func(e *Expr) {
		if e != nil {
			e.walk(f)
		}
	}
	props := func(l []PropPat) {
		for _, x := range l {
			w(x.E)
		}
	}
	for _, q := range s.Queries {
		for _, c := range q.Clauses {
			for _, x := range c.Parts {
				props(x.Start.Props)
				for _, st := range x.Steps {
					props(st.Rel.Props)
					props(st.Node.Props)
				}
			}
			w(c.Where)
			w(c.Skip)
			w(c.Limit)
			for _, l := range [][]SetItem{c.Items, c.OnCreate, c.OnMatch} {
				for _, x := range l {
					w(x.E)
				}
			}
			for _, x := range c.Proj {
				w(x.E)
			}
		}
	}
}

// writtenKeys returns the names of properties the statement may write
func (s *Stmt) writtenKeys() []string {
	var r []string
	props := func(n []PropPat) {
		for _, x := range n {
			r = append(r, x.K)
		}
	}
	for _, q := range s.Queries {
		for _, c := range q.Clauses {
			if c.Kind == "create" || c.Kind == "merge" {
				for _, p := range c.Parts {
					props(p.Start.Props)
					for _, st := range p.Steps {
						props(st.Rel.Props)
						props(st.Node.Props)
					}
				}
			}
			for _, l := range [][]SetItem{c.Items, c.OnCreate, c.OnMatch} {
				for _, x := range l {
					switch {
					case c.Kind == "remove" || x.E == nil:
					case x.Kind == "prop":
						r = append(r, x.Key)
					case x.E.Op == "map" && x.E.N != "":
						r = append(r, strings.Split(x.E.N, ",")...)
					default:
						r = append(r, "p", "q", "s")
					}
				}
			}
		}
	}
	return r
}
