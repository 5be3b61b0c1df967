package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

// Text cases: parsing any text ends.

// textLimit is the number of steps parsing may take
func textLimit(s string) uint64 {
	n := uint64(len(s)) + 20
	return 20000000 + 200000*n + 2000*n*n
}

// plainReturn: a text that searches and updates nothing. Its evaluation
// is bounded by its length too
func plainReturn(t string) bool {
	u := strings.ToUpper(t)
	if !strings.HasPrefix(u, "RETURN ") {
		return false
	}
	for _, k := range []string{"MATCH", "CREATE", "MERGE"} {
		if strings.Contains(u, k) {
			return false
		}
	}
	return true
}

var extreme = []int{0, 0, 1, 1, -1, 2, -3, 7, 100, 1<<31 - 1, -1 << 31, 1 << 32, math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64, 1 << 62, -(1 << 62)}

// extremeInt is a constant expression of an extreme value
func extremeInt(r *rng) string { return fmt.Sprintf("(%d)", pick(r, extreme...)) }

// extremeRange is a range of at most 3000 elements
func extremeRange(r *rng) string {
	for {
		a, b, c := pick(r, extreme...), pick(r, extreme...), pick(r, extreme...)
		if r.p(30) {
			c = 1
		}
		if r.p(10) {
			a, b, c = r.n(4), r.n(8), 0
		}
		if c != 0 && math.Abs((float64(b)-float64(a))/float64(c)) > 3000 {
			continue
		}
		if c == 1 && r.p(50) {
			return fmt.Sprintf("range((%d), (%d))", a, b)
		}
		return fmt.Sprintf("range((%d), (%d), (%d))", a, b, c)
	}
}

func extremeExpr(r *rng, d int) string {
	sub := func() string { return extremeExpr(r, d-1) }
	if d == 0 {
		return pick(r, extremeInt(r), extremeInt(r), extremeRange(r), "null", "'ab'", "''", "2.5", "1e308", "true", "[]", "{}", "$p", "x")
	}
	switch r.n(12) {
	case 0, 1, 2, 3:
		return "(" + sub() + " " + pick(r, "+", "-", "*", "/", "%", "^", "=", "<", ">=", "AND", "OR", "XOR", "IN") + " " + sub() + ")"
	case 4:
		return extremeRange(r)
	case 5:
		return sub() + "[" + extremeInt(r) + "]"
	case 6:
		return sub() + "[" + extremeInt(r) + ".." + extremeInt(r) + "]"
	case 7:
		return pick(r, "size", "toInteger", "toFloat", "trim", "rtrim", "ltrim", "date", "labels", "type") + "(" + sub() + ")"
	case 8:
		return pick(r, "left", "right", "split", "substring", "parseDate") + "(" + sub() + ", " + sub() + ")"
	case 9:
		return "CASE " + sub() + " WHEN " + sub() + " THEN " + sub() + " ELSE " + sub() + " END"
	case 10:
		return "[" + sub() + ", " + sub() + "]"
	}
	return pick(r, "-", "NOT ", "- -", "+") + "(" + sub() + ")"
}

func runText(c *Case, st *Stats) *Violation {
	setupRun(c)
	for k, t := range c.Texts {
		for _, part := range []bool{false, true} {
			ended := ""
			var over *rt.StepLimit
			limit := textLimit(t)
			rt.StartCount(limit)
			func() {
				defer func() {
					if e := recover(); e != nil {
						if sl, ok := e.(rt.StepLimit); ok {
							over = &sl
							return
						}
						ended = "panic"
					}
				}()
				var err error
				if part {
					_, err = cy.ParsePatternExpr(t)
				} else {
					var e cy.Evaluatable
					e, err = cy.Parse(t)
					if err == nil && plainReturn(t) {
						ended = "evaluation"
						_, err = e.Evaluate(cy.NewEvalContext(lpg.NewGraph()))
						st.inc("evaluated", 1)
					}
				}
				ended = "parsed"
				if err != nil {
					ended = "error"
				}
			}()
			steps := rt.Stop()
			st.inc("steps", int(steps))
			st.inc("text ends with "+ended, 1)
			st.max("largest use of the step limit in 1000", int(steps*1000/limit))
			if over != nil {
				return &Violation{Op: k, What: "termination", Detail: fmt.Sprintf("parsing"+map[bool]string{true: " and evaluating"}[!part && plainReturn(t)]+" did not end within %d steps\n  text: %q", over.Steps, t)}
			}
			st.trace(hashStr(ended))
			st.S.add(hashStr(t))
			st.evaluation(hashStr(t), len(t) > 3)
		}
	}
	return nil
}

var tokens = []string{"MATCH", "OPTIONAL", "RETURN", "WHERE", "CREATE", "MERGE", "SET", "DELETE", "DETACH", "REMOVE", "WITH", "UNWIND", "AS", "UNION", "ALL", "SKIP", "LIMIT", "ORDER", "BY", "ON", "DISTINCT", "AND", "OR", "XOR", "NOT", "IN", "STARTS", "ENDS", "CONTAINS", "IS", "NULL", "CASE", "WHEN", "THEN", "ELSE", "END", "count", "(", ")", "[", "]", "{", "}", "-", "->", "<-", "--", "-[", "]->", "]-", ":", ",", ".", "..", "*", "+", "/", "%", "^", "=", "<>", "<", "<=", ">", ">=", "=~", "|", "$", "n", "m", "r", "A", "p", "1", "2.5", "0x1f", "017", "'a'", `"b"`, "`x y`", "$p", "true", "false", "any", "none", "single", "filter", "extract", "exists", ";", "/*", "*/", "//", "'", `"`, "`", "\\", "\n", "é", "\x00", "~", "@"}

func genText(seed uint64) *Case {
	r := &rng{mix(seed, 0x7e)}
	c := &Case{Prop: "C15", Kind: "text", Seed: seed}
	p := profileOf("C15")
	g := &gen{r: r, p: &p, c: &Case{}}
	for i := 0; i < 12; i++ {
		var t string
		switch r.n(8) {
		case 6, 7: // evaluated
			t = "RETURN " + extremeExpr(r, r.n(4))
			if r.p(15) {
				t += " SKIP " + extremeExpr(r, r.n(2))
			}
			if r.p(15) {
				t += " LIMIT " + extremeExpr(r, r.n(2))
			}
		case 0, 1: // a statement with a few changes
			s := g.stmt()
			l := strings.Fields(s.Text())
			for k := r.n(4); k >= 0 && len(l) > 1; k-- {
				at := r.n(len(l))
				switch r.n(4) {
				case 0:
					l = append(l[:at], l[at+1:]...)
				case 1:
					l[at] = pick(r, tokens...)
				case 2:
					l = append(l[:at+1], l[at:]...)
				default:
					o := r.n(len(l))
					l[at], l[o] = l[o], l[at]
				}
			}
			t = strings.Join(l, " ")
		case 2: // tokens
			var l []string
			for k := 1 + r.n(25); k > 0; k-- {
				l = append(l, pick(r, tokens...))
			}
			t = strings.Join(l, pick(r, " ", " ", ""))
		case 3: // bytes
			b := make([]byte, 1+r.n(40))
			for k := range b {
				b[k] = byte(r.n(256))
				if r.p(60) {
					b[k] = byte(32 + r.n(95))
				}
			}
			t = string(b)
		case 4: // nesting
			o, e := "(", ")"
			switch r.n(4) {
			case 0:
				o, e = "[", "]"
			case 1:
				o, e = "{a: ", "}"
			case 2:
				o, e = "NOT ", ""
			}
			n := 1 + r.n(6)
			if r.p(20) {
				n = 1 + r.n(maxNest)
			}
			t = "RETURN " + strings.Repeat(o, n) + "1" + strings.Repeat(e, n-r.n(2))
		default: // a prefix
			s := g.stmt().Text()
			t = s[:r.n(len(s)+1)]
		}
		c.Texts = append(c.Texts, t)
	}
	return c
}

const maxNest = 12
