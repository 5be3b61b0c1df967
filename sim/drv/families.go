package main

import "strings"

// A family is a statement that sessions run again and again, every time
// with arguments of its own: what one of them stores where another one
// finds it shows in the results, if they are switched in between. An
// argument is a parameter, or, if inline, part of the text.
type family struct {
	text   string
	update bool
	args   []famArg
}

type famArg struct {
	name string
	vals []*Val
}

func vMap(kv ...interface{}) *Val {
	m := map[string]Val{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = *kv[i+1].(*Val)
	}
	return &Val{K: "map", M: m}
}

func vList(l ...*Val) *Val { return &Val{K: "list", L: l} }

var (
	famInts  = []*Val{vInt(0), vInt(1), vInt(2), vInt(3)}
	famStrs  = []*Val{vStr("a"), vStr("bcd"), vStr("a,b,c"), vStr(" x ")}
	famMaps  = []*Val{vMap("p", vInt(1)), vMap("p", vInt(2), "q", vInt(1)), vMap("q", vInt(3)), vMap("s", vStr("z")), vMap("p", vInt(3), "s", vStr("y"))}
	famZones = []*Val{vStr("Pacific/Kiritimati"), vStr("Pacific/Pago_Pago"), vStr("UTC")}
	famDates = []*Val{vStr("2020-01-02"), vStr("2021-3-4"), vStr("5.6.2019"), vStr("2018")}
	famLists = []*Val{vList(vInt(1)), vList(vInt(2), vInt(3)), vList(vStr("x")), vList()}
	famNums  = []*Val{vStr("12"), vStr("1.5"), vStr("x"), vStr("-7")}
	famRes   = []*Val{vStr("a.*"), vStr("b.*"), vStr(".*c"), vStr("x+")}
)

var families = []family{
	{`RETURN date({timezone: $z}) AS d`, false, []famArg{{"z", famZones}}},
	{`RETURN date({timezone: $z}) AS d, date({timezone: $y}) AS e`, false, []famArg{{"z", famZones}, {"y", famZones}}},
	{`RETURN date($d) AS d`, false, []famArg{{"d", []*Val{vStr("2020-1-2"), vStr("2021-3-4"), vStr("2019-05-06")}}}},
	{`RETURN date({year: $y, month: $m, day: 3}) AS d`, false, []famArg{{"y", []*Val{vInt(2019), vInt(2020), vInt(2021)}}, {"m", []*Val{vInt(1), vInt(2), vInt(12)}}}},
	{`RETURN parseDate($d, $f) AS d`, false, []famArg{{"d", famDates}, {"f", []*Val{vStr("YYYY-MM-DD"), vStr("YYYY-M-D"), vStr("D.M.YYYY"), vStr("YYYY")}}}},
	{`RETURN $s =~ $r AS m, "bcd" =~ $r AS n`, false, []famArg{{"s", famStrs}, {"r", famRes}}},
	{`RETURN split($s, $t) AS l, trim($s) AS a, ltrim($s) AS b, rtrim($s) AS c`, false, []famArg{{"s", famStrs}, {"t", []*Val{vStr(","), vStr("b"), vStr("x")}}}},
	{`RETURN substring($s, $n) AS a, left($s, $n) AS b, right($s, $n) AS c, size($s) AS d`, false, []famArg{{"s", famStrs}, {"n", famInts}}},
	{`RETURN toInteger($s) AS a`, false, []famArg{{"s", famNums}}},
	{`RETURN toFloat($s) AS a`, false, []famArg{{"s", famNums}}},
	{`RETURN toIntegerOrNull($s) AS a, toFloatOrNull($s) AS b`, false, []famArg{{"s", famNums}}},
	{`RETURN range($n, $m) AS l, range($m, $n, -1) AS k, size($l) AS s`, false, []famArg{{"n", famInts}, {"m", famInts}, {"l", famLists}}},
	{`RETURN $n + $m AS a, $n * 2 - $m AS b, $n / 2.0 AS c, -$m AS d, $n ^ 2 AS e`, false, []famArg{{"n", famInts}, {"m", famInts}}},
	{`RETURN $n IN $l AS a, $l + $n AS b, {a: $n, b: $l} AS c, [$n, $n] AS d`, false, []famArg{{"n", famInts}, {"l", famLists}}},
	{`RETURN CASE $n WHEN 1 THEN "one" WHEN $m THEN "m" ELSE $s END AS a, CASE WHEN $n < $m THEN 1 ELSE 2 END AS b`, false, []famArg{{"n", famInts}, {"m", famInts}, {"s", famStrs}}},
	{`RETURN $s STARTS WITH $t AS a, $s ENDS WITH $t AS b, $s CONTAINS $t AS c, $s + $t AS d, $s < $t AS e`, false, []famArg{{"s", famStrs}, {"t", famStrs}}},
	{`RETURN $n = $m AS a, $n <> $m AND $n > 1 AS b, $n IS NULL OR NOT $n >= $m AS c, $n < $m XOR true AS d`, false, []famArg{{"n", famInts}, {"m", famInts}}},
	{`RETURN $l[$n] AS a, $m.p AS b, $m.s AS c`, false, []famArg{{"l", []*Val{vList(vInt(1), vInt(2), vInt(3), vInt(4)), vList(vInt(5), vInt(6), vInt(7), vInt(8))}}, {"n", famInts}, {"m", famMaps}}},
	{`MATCH (n:A) WHERE n.p = $n RETURN n.p AS p, $n AS n`, false, []famArg{{"n", famInts}}},
	{`MATCH (n:A $m) RETURN n`, false, []famArg{{"m", famMaps}}},
	{`MATCH (n:A {p: $n}) RETURN n`, false, []famArg{{"n", famInts}}},
	{`MATCH (n)-[r:R $m]->(k) RETURN n, k`, false, []famArg{{"m", famMaps}}},
	{`MATCH (n)-[r {p: $n}]-(k {p: $k}) RETURN n, r, k`, false, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MATCH (n)-[r*1..3 {p: $n}]->(k) RETURN n, k`, false, []famArg{{"n", famInts}}},
	{`MATCH (n {p: $n}), (k {p: $k}) RETURN n, k, $n + $k AS s`, false, []famArg{{"n", famInts}, {"k", famInts}}},
	{`OPTIONAL MATCH (n:A {p: $n}) OPTIONAL MATCH (n)-->(k {p: $k}) RETURN n, k`, false, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MATCH (n) WHERE (n)-->({p: $n}) RETURN n`, false, []famArg{{"n", famInts}}},
	{`MATCH (n) RETURN n.p + $n AS x LIMIT $k`, false, []famArg{{"n", famInts}, {"k", []*Val{vInt(1000), vInt(0), vInt(2000)}}}},
	{`MATCH (n:A) RETURN n.p = $n AS x UNION MATCH (n:B) RETURN n.p = $k AS x`, false, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MATCH (n) RETURN CASE WHEN n.p < $n THEN $s ELSE labels(n) END AS c`, false, []famArg{{"n", famInts}, {"s", famStrs}}},
	{`CREATE (n:A $m) RETURN n`, true, []famArg{{"m", famMaps}}},
	{`CREATE (n:A $m)-[r:R $k]->(o:B {p: $n}) RETURN n, r, o`, true, []famArg{{"m", famMaps}, {"k", famMaps}, {"n", famInts}}},
	{`CREATE (n:A {p: $n, q: $n + 1}), (k:B {p: $n}) RETURN n.p AS p, k`, true, []famArg{{"n", famInts}}},
	{`MERGE (n:M $m) RETURN n`, true, []famArg{{"m", famMaps}}},
	{`MERGE (n:M {p: $n}) ON CREATE SET n.q = $k, n.s = "new" ON MATCH SET n.q = n.q + $k RETURN n`, true, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MERGE (n:A {p: $n})-[r:R {q: $k}]->(o:B {p: $k}) RETURN n, r, o`, true, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MATCH (n:A) SET n.p = $n, n.q = $k RETURN n`, true, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MATCH (n:A) SET n = $m RETURN n`, true, []famArg{{"m", famMaps}}},
	{`MATCH (n:A) SET n += $m, n:B RETURN n`, true, []famArg{{"m", famMaps}}},
	{`MATCH (n:A {p: $n}) REMOVE n.q RETURN n`, true, []famArg{{"n", famInts}}},
	{`MATCH (n {p: $n}) DETACH DELETE n`, true, []famArg{{"n", famInts}}},
	{`MATCH (n)-[r {p: $n}]->(k) DELETE r RETURN n, k`, true, []famArg{{"n", famInts}}},
	{`MATCH (n:A {p: $n}) CREATE (n)-[r:R {p: $k}]->(k:B {p: n.p}) RETURN n, k`, true, []famArg{{"n", famInts}, {"k", famInts}}},
	{`MATCH (n:A) SET n.d = date({timezone: $z}) RETURN n`, true, []famArg{{"z", famZones}}},
}

// famCase turns a concurrent case into one where the sessions run
// statements of one or two families
func famCase(c *Case, r *rng) {
	nf := 1 + r.n(2)
	var fs []*family
	for i := 0; i < nf; i++ {
		for {
			f := &families[r.n(len(families))]
			if !f.update || !c.sharedGraph() {
				fs = append(fs, f)
				break
			}
		}
	}
	c.Texts, c.Ops, c.Session, c.Scheds = nil, nil, nil, nil
	c.Stmts, c.Nested, c.Parts = nil, nil, nil
	g := GSpec{}
	for i, n := 0, 2+r.n(4); i < n; i++ {
		v := GNode{Labels: []string{pick(r, "A", "A", "B")}, Props: map[string]Val{"p": *vInt(r.n(4)), "q": *vInt(r.n(3))}}
		if r.p(30) {
			v.Props["s"] = *pick(r, vStr("z"), vStr("y"))
		}
		g.Nodes = append(g.Nodes, v)
	}
	for i, n := 0, r.n(5); i < n; i++ {
		g.Edges = append(g.Edges, GEdge{From: r.n(len(g.Nodes)), To: r.n(len(g.Nodes)), Label: pick(r, "R", "R", "S"), Props: map[string]Val{"p": *vInt(r.n(3)), "q": *vInt(r.n(3))}})
	}
	c.Graphs = []GSpec{g}
	for i := range c.Ctxs {
		c.Ctxs[i].Graph = 0
	}
	// arguments in the text are another text: the sessions do not share
	// the statement then
	inline := c.Share&2 == 0 && r.p(40)
	ns := 2 + r.n(2)
	index := map[string]int{}
	for i := 0; i < ns; i++ {
		var ops []int
		for k, n := 0, 1+r.n(4); k < n; k++ {
			f := fs[r.n(len(fs))]
			op := Op{Kind: "text", Params: map[string]Val{}, Ctx: r.n(len(c.Ctxs))}
			text := f.text
			for _, a := range f.args {
				v := a.vals[r.n(len(a.vals))]
				if inline && v.K != "map" {
					text = replaceParam(text, a.name, lit(v).String())
					continue
				}
				op.Params[a.name] = *v
			}
			at, ok := index[text]
			if !ok {
				at = len(c.Texts)
				index[text] = at
				c.Texts = append(c.Texts, text)
			}
			op.S = at
			c.Ops = append(c.Ops, op)
			ops = append(ops, len(c.Ops)-1)
		}
		c.Session = append(c.Session, SessionOp{ops})
	}
	n := 24
	if c.Share&6 == 0 {
		n = 4 // they parse
	}
	for i := 0; i < n; i++ {
		s := schedule(r, true)
		if s.Policy == "pct" {
			s.Est = 0 // the steps of the schedule before
		}
		c.Scheds = append(c.Scheds, s)
	}
}

// featCase turns a concurrent case into one where the sessions run short
// statements that use the same part of the code
func featCase(c *Case, r *rng) {
	group := pick(r, relatedFeatures...)
	c.Texts, c.Ops, c.Session, c.Scheds = nil, nil, nil, nil
	c.Stmts, c.Nested, c.Parts = nil, nil, nil
	at := map[int]int{}
	for i, ns := 0, 2+r.n(2); i < ns; i++ {
		var ops []int
		for k, n := 0, 1+r.n(3); k < n; k++ {
			f := r.n(len(group))
			if _, ok := at[f]; !ok {
				at[f] = len(c.Texts)
				c.Texts = append(c.Texts, group[f])
			}
			c.Ops = append(c.Ops, Op{Kind: "text", S: at[f], Ctx: r.n(len(c.Ctxs))})
			ops = append(ops, len(c.Ops)-1)
		}
		c.Session = append(c.Session, SessionOp{ops})
	}
	n := 8
	if c.Share&6 == 0 {
		n = 2 // they parse
	}
	for i := 0; i < n; i++ {
		s := schedule(r, true)
		if s.Policy == "pct" {
			s.Est = 0 // the steps of the schedule before
		}
		c.Scheds = append(c.Scheds, s)
	}
}

// replaceParam replaces a parameter in a text
func replaceParam(text, name, by string) string {
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		if strings.HasPrefix(text[i:], "$"+name) {
			if k := i + 1 + len(name); k == len(text) || !isWord(text[k]) {
				b.WriteString(by)
				i = k - 1
				continue
			}
		}
		b.WriteByte(text[i])
	}
	return b.String()
}

func isWord(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_'
}
