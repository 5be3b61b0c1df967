package main

import "strings"

// features are statements that use parts of the code a history of random
// statements does not: built-in functions, operators and clauses. Any of
// them may be the first use in a process.
var features = []string{
	`RETURN date()`,
	`RETURN timestamp()`,
	`RETURN date({year: 2020, month: 2, day: 3}), date("2020-1-2")`,
	`RETURN date({timezone: "UTC"})`,
	`RETURN date({timezone: "America/New_York"})`,
	`RETURN parseDate("2020-04-05", "YYYY-MM-DD")`,
	`RETURN parseDate("5/4/2020", "D/M/YYYY") AS d`,
	`RETURN parseDate("05.04.2020 10:11", "DD.MM.YYYY HH:mm") AS d, parseDate("Mar 3 2019", "MMM D YYYY") AS e`,
	`RETURN parseDate("x", "YYYY")`,
	`RETURN date("2020-1-2") < date("2021-1-2")`,
	`RETURN split("a,b,c", ",") AS l, trim("  x ") AS t, ltrim(" x") AS u, rtrim("x ") AS v`,
	`RETURN substring("hello", 1), left("hello", 2), right("hello", 2)`,
	`RETURN toInteger("12"), toFloat("1.5"), toIntegerOrNull("x"), toFloatOrNull("1.25")`,
	`RETURN range(1, 5), range(5, 1, -2), size([1, 2, 3])`,
	`RETURN "abc" =~ "a.*" AS r, "abc" =~ "b" AS s`,
	`RETURN "abc" STARTS WITH "a" AND "abc" ENDS WITH "c" AND "abc" CONTAINS "b"`,
	`RETURN 1 + 2 * 3 - 4 / 2 + 5 % 3, 2 ^ 3, -4, 1.5 * 2`,
	`RETURN [1, 2, 3][1] AS x, {a: 1, b: [2]} AS m`,
	`RETURN CASE WHEN 1 = 2 THEN "a" ELSE "b" END AS c, CASE 3 WHEN 3 THEN true END AS d`,
	`RETURN null IS NULL, 1 IS NOT NULL, NOT true, true XOR false`,
	`RETURN 1 IN [1, 2] AS x`,
	`MATCH (n) RETURN n, labels(n), size(labels(n))`,
	`MATCH (n)-[r]->(m) RETURN type(r), n.p, m`,
	`MATCH (n)-[r*1..3]->(m) RETURN m`,
	`OPTIONAL MATCH (n:Nope) RETURN n`,
	`MATCH (n) WHERE (n)-[]->() RETURN n`,
	`MATCH (n) RETURN n SKIP 1 LIMIT 2`,
	`MATCH (n) RETURN n.p AS p UNION MATCH (m) RETURN m.q AS p`,
	`MATCH (n:A) RETURN n UNION ALL MATCH (n:B) RETURN n`,
	`RETURN nosuchfunction(1)`,
	`RETURN nosuchvariable`,
	`RETURN $nosuchparameter`,
	`RETURN 1 +`,
	`MATCH (n`,
	`RETURN print("x")`,
}

// relatedFeatures are groups of features that use the same part of the code, or
// the same state of it. A case may take all its statements from one group.
var relatedFeatures = [][]string{
	{
		`RETURN date()`,
		`RETURN date() AS d, timestamp() AS t`,
		`RETURN date({timezone: "UTC"})`,
		`RETURN date({timezone: "America/New_York"})`,
		`RETURN date({year: 2020, month: 2, day: 3}) AS d`,
		`RETURN date("2020-1-2") AS d, date("2021-12-31") AS e`,
		`RETURN parseDate("2020-04-05", "YYYY-MM-DD") AS d`,
		`RETURN parseDate("05.04.2020 10:11", "DD.MM.YYYY HH:mm") AS d, date() AS e`,
		`RETURN parseDate("Mar 3 2019", "MMM D YYYY") AS d, parseDate("x", "YYYY") AS e`,
	},
	{
		`RETURN "abc" =~ "a.*" AS r`,
		`RETURN "abc" =~ "b" AS r`,
		`RETURN "aXc" =~ "a[A-Z]c" AS r, "b" =~ "a" AS s`,
		`RETURN "abc" =~ "(" AS r`,
		`MATCH (n) WHERE n.s =~ "x|y" RETURN n`,
	},
	{
		`RETURN range(1, 5) AS r`,
		`RETURN range(5, 1, -2) AS r`,
		`RETURN range(1, 3, 0) AS r`,
		`RETURN range(3, 3, 0) AS r`,
		`RETURN size(range(0, 9)) AS r, range(0, 9, 4) AS s`,
	},
	{
		`RETURN split("a,b,c", ",") AS l`,
		`RETURN split("a--b", "--") AS l, size(split("a b", " ")) AS s`,
		`RETURN trim("  x ") AS t, ltrim(" x") AS u, rtrim("x ") AS v`,
		`RETURN substring("hello", 1) AS s, substring("hello", 1, 2) AS t`,
		`RETURN left("hello", 2) AS l, right("hello", 2) AS r`,
		`RETURN left("hello", 9) AS l`,
		`RETURN toInteger("12") AS i, toFloat("1.5") AS f`,
		`RETURN toIntegerOrNull("x") AS i, toFloatOrNull("1.25") AS f`,
	},
	{
		`MATCH (n) RETURN n, labels(n) AS l`,
		`MATCH (n) RETURN size(labels(n)) AS l`,
		`MATCH (n)-[r]->(m) RETURN type(r) AS t, n.p, m`,
		`MATCH (n:A)-[r:R]->(m) RETURN r, m`,
		`MATCH (n)-[r*1..2]->(m) RETURN m`,
		`MATCH (n) WHERE (n)-[]->() RETURN n`,
		`OPTIONAL MATCH (n:Nope) RETURN n`,
	},
	{
		`MATCH (n) RETURN n.p AS p UNION MATCH (m) RETURN m.q AS p`,
		`MATCH (n) RETURN n.p AS p UNION ALL MATCH (m) RETURN m.p AS p`,
		`MATCH (n:A) RETURN n UNION ALL MATCH (n:B) RETURN n`,
		`RETURN 1 AS x UNION RETURN 1 AS x`,
		`MATCH (n) RETURN n SKIP 1 LIMIT 2`,
	},
	{
		`RETURN 1 +`,
		`RETURN nosuchfunction(1)`,
		`RETURN nosuchvariable`,
		`MATCH (n`,
		`RETURN 1 AS x`,
		`RETURN [1, 2, 3][1] AS x, {a: 1, b: [2]} AS m`,
	},
}

var updateFeatures = []string{
	`CREATE (n:A {p: 1})-[:R {q: 2}]->(m:B {s: "x"}) RETURN n, m`,
	`MERGE (n:M {p: 1}) ON CREATE SET n.q = 1 ON MATCH SET n.q = 2 RETURN n`,
	`MERGE (n:M {p: 2})-[:R]->(m:M {p: 3})`,
	`MATCH (n:A) SET n.p = 5, n:B, n += {q: 1, s: null}`,
	`MATCH (n:A) SET n = {p: 7}`,
	`MATCH (n) REMOVE n.p, n:A`,
	`MATCH (n:B) DETACH DELETE n`,
	`MATCH (n)-[r]->(m) DELETE r`,
	`MATCH (n) SET n.d = date("2020-1-2")`,
}

func noUpdates(l []*Stmt) bool {
	for _, s := range l {
		if s.hasUpdates() {
			return false
		}
	}
	return true
}

// genConc makes a concurrent case
func genConc(prop, variant string, seed uint64) *Case {
	r := &rng{mix(seed, 0xc0)}
	p := Profile{Read: 30, Create: 12, Merge: 8, Set: 10, Remove: 4, Delete: 5, Union: 8, Value: 12, Bad: 5, Optional: 25,
		Fns: 25, Nested: true, Graphs: 2, Ctxs: 3, Tree: true, Filter: 25, RelStmts: 2, Rel: 15, Faults: 10, MaxN: 6, MaxE: 8}
	share := 0
	p.Stmts = 2 + r.n(3)
	nops := 2 + r.n(3)
	nsched := 1
	switch prop {
	case "C01":
		p.Rel = 8
		nsched = 1 + r.n(2)
	case "C02":
		p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Filter = 0, 0, 0, 0, 0, 0
		p.Read, p.Union, p.Value, p.Rel = 50, 15, 5, 30
		p.RelStmts = 3
		p.Faults = 6
		share = 1 | 2
		nsched = 12
		if r.p(15) {
			share = 1
			nsched = 2
		}
		p.Stmts = 5
		nops = 4
	case "C04":
		share = 2
		if r.p(35) {
			p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Filter = 0, 0, 0, 0, 0, 0
			share = 1 | 2
		}
		nsched = 12
		p.Stmts = 4
		nops = 4
	case "C15":
		p.Faults = 70
		p.StallFaults = true
		p.Fns, p.Filter = 60, 60
		if r.p(50) {
			p.Create, p.Merge, p.Set, p.Remove, p.Delete, p.Filter = 0, 0, 0, 0, 0, 0
			share = 1
		}
		share |= 2 * r.n(2)
		nsched = 8
		if share&2 == 0 {
			nsched = 2
		}
	}
	var c *Case
	for {
		c = genHist(prop, seed, p)
		if share&1 == 0 || noUpdates(c.Stmts) && noUpdates(c.Nested) {
			break
		}
		seed = mix(seed, 1)
	}
	for _, s := range append(append([]*Stmt{}, c.Stmts...), c.Nested...) {
		noDoubling(s)
	}
	limitWalks(c)
	c.Kind = "conc"
	c.Seed = seed
	c.Share = share
	c.Ops = nil
	c.Map = pick(r, 0, 1, 2)
	if prop == "C01" || r.p(30) {
		k := 2 + r.n(5)
		same := r.p(50)
		related := features
		if r.p(50) {
			related = pick(r, relatedFeatures...)
			same = false
		}
		for i := 0; i < k; i++ {
			if share&1 == 0 && r.p(25) {
				c.Texts = append(c.Texts, pick(r, updateFeatures...))
			} else {
				c.Texts = append(c.Texts, pick(r, related...))
			}
		}
		if same && len(c.Texts) > 2 {
			c.Texts = c.Texts[:1]
		}
	}
	if prop != "C15" && (strings.HasPrefix(variant, "feat") || variant == "conc-race" && r.p(25)) {
		if prop == "C01" && r.p(80) {
			c.Share = 4
		}
		if c.Share == 1 {
			c.Share = 1 | 4
		}
		featCase(c, r)
		return c
	}
	if prop != "C15" && (variant == "fam" || r.p(10)) {
		if prop == "C01" && r.p(80) {
			c.Share = 4
		}
		if c.Share == 1 {
			c.Share = 1 | 4
		}
		famCase(c, r)
		return c
	}
	g := &gen{r: r, p: &p, c: c}
	ns := 2
	if r.p(40) {
		ns = 3 + r.n(2)
	}
	// some cases run the same operations in all sessions
	same := r.p(40)
	var ops []int
	for i := 0; i < ns; i++ {
		if i > 0 && same {
			c.Session = append(c.Session, SessionOp{append([]int{}, ops...)})
			continue
		}
		ops = nil
		for k := 0; k < nops; k++ {
			var op Op
			if prop == "C15" && i > 0 && r.p(8) {
				c.Ops = append(c.Ops, Op{Kind: "reg", Fn: &FnDef{Name: "unused", Kind: "id", Ver: 1, Min: 1, Max: 1, ByValue: true}})
				ops = append(ops, len(c.Ops)-1)
				continue
			}
			if len(c.Texts) > 0 && r.p(45) {
				op = Op{Kind: "text", S: r.n(len(c.Texts)), Ctx: r.n(len(c.Ctxs))}
			} else {
				op = g.op()
				if op.Node != nil && op.Kind == "setvar" {
					op.Node = nil
					v := vInt(r.n(3))
					op.Val, op.Name = v, pick(r, ctxVars...)
				}
				op.Sub = true
			}
			op.Fresh = share&2 == 0 && r.p(60)
			c.Ops = append(c.Ops, op)
			ops = append(ops, len(c.Ops)-1)
		}
		c.Session = append(c.Session, SessionOp{ops})
	}
	for i := 0; i < nsched; i++ {
		c.Scheds = append(c.Scheds, schedule(r, share&2 != 0))
	}
	return c
}

func schedule(r *rng, short bool) SchedSpec {
	s := SchedSpec{Seed: r.next()}
	switch r.n(10) {
	case 0, 1, 2, 3:
		s.Policy = "random"
		s.Gap = pick(r, 2, 3, 5, 10, 30, 100, 300)
		if !short {
			s.Gap = pick(r, 5, 20, 100, 500, 3000)
		}
	case 4, 5, 6:
		s.Policy = "pct"
		s.Depth = 1 + r.n(5)
		s.Est = uint64(pick(r, 300, 1000, 4000, 15000))
		if !short {
			s.Est = uint64(pick(r, 5000, 20000, 60000))
		}
	default:
		s.Policy = "sites"
		s.SiteMod = pick(r, 5, 17, 60, 200)
	}
	return s
}

// noDoubling replaces values that may double the size of a property: many
// rows would double it many times
func noDoubling(s *Stmt) {
	for qi := range s.Queries {
		for ci := range s.Queries[qi].Clauses {
			c := &s.Queries[qi].Clauses[ci]
			for _, l := range [][]SetItem{c.Items, c.OnCreate, c.OnMatch} {
				for i := range l {
					if l[i].E == nil || !has([]string{"s", "t", "l"}, l[i].Key) {
						continue
					}
					n := 0
					l[i].E.walk(func(e *Expr) {
						if e.Op == "prop" {
							n++
						}
					})
					if n > 1 {
						l[i].E = lit(vInt(1))
					}
				}
			}
		}
	}
}

// limitWalks bounds patterns of unbounded length where a graph has very
// many paths: nothing but the number of steps limits a concurrent case
func limitWalks(c *Case) {
	deg, edges := 1.0, 0
	for _, g := range c.Graphs {
		n := make([]float64, len(g.Nodes))
		for _, e := range g.Edges {
			n[e.From]++
			n[e.To]++
		}
		for _, d := range n {
			if d > deg {
				deg = d
			}
		}
		if len(g.Edges) > edges {
			edges = len(g.Edges)
		}
	}
	// sessions add a few
	deg++
	edges += 2
	walks := func(p *Part) float64 {
		sum := 10.0
		for i := range p.Steps {
			r := &p.Steps[i].Rel
			if !r.VarLen {
				sum *= deg
				continue
			}
			max := r.Max
			if max == 0 || max > edges {
				max = edges
			}
			k, d := 1.0, deg
			for j := 0; j < max; j++ {
				k *= d
				if d > 1 {
					d-- // a relationship occurs once in a path
				}
			}
			sum *= k
		}
		return sum
	}
	part := func(p *Part) {
		for m := 4; m > 0 && walks(p) > 20000; m-- {
			for i := range p.Steps {
				if r := &p.Steps[i].Rel; r.VarLen && (r.Max == 0 || r.Max > m) {
					r.Max = m
					if r.Min > m {
						r.Min = m
					}
				}
			}
		}
	}
	for _, s := range append(append([]*Stmt{}, c.Stmts...), c.Nested...) {
		for qi := range s.Queries {
			for ci := range s.Queries[qi].Clauses {
				l := s.Queries[qi].Clauses[ci].Parts
				for i := range l {
					part(&l[i])
				}
			}
		}
	}
	for i := range c.Parts {
		part(&c.Parts[i])
	}
}
