package main

import (
	"bufio"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

// Known findings: every one has an input here, which is run against the
// code under test whenever the property is checked, and the observation
// that shows the defect.

type probe struct {
	nodes []GNode
	edges []GEdge
	vars  bool // statements share the variables of the context
	tail  bool // with the original lpg
	text  bool // only parse, and compare the memory that takes
	zone  string
	run   []string
	bad   string // what the last statement does
}

func labels(l ...string) []GNode {
	var r []GNode
	for _, x := range l {
		n := GNode{}
		if x != "" {
			n.Labels = []string{x}
		}
		r = append(r, n)
	}
	return r
}

var two = labels("A", "B")
var ab = []GEdge{{From: 0, To: 1, Label: "R"}}

var knownProbes = map[string]*probe{
	"KF1": {tail: true, nodes: labels("A", "C"), run: []string{`MATCH (n:C) DELETE n`, `CREATE (n:B)`, `MATCH (n) RETURN n`}, bad: "1 rows 1=n0;"},
	"KF2": {nodes: labels("", "", ""), edges: []GEdge{{From: 0, To: 1, Label: "S"}, {From: 0, To: 1, Label: "S"}, {From: 1, To: 2, Label: "S"}},
		run: []string{`MATCH ()<-[]-(n)-[]->()-[]-(n) RETURN 1 AS x`}, bad: "13 rows"},
	"KF3":  {nodes: labels("A", "B", "C"), edges: ab, run: []string{`MATCH (a)-[r:R]-(b) RETURN a, b`}, bad: "panic runtime error: invalid memory address or nil pointer dereference"},
	"KF4":  {nodes: []GNode{{Props: map[string]Val{"b": *vBool(true)}}}, run: []string{`MATCH (n {b: true}) RETURN n`}, bad: "0 rows "},
	"KF6":  {nodes: labels("A"), edges: []GEdge{{From: 0, To: 0, Label: "R"}}, run: []string{`MATCH (a:A)-[r:R]-(b) RETURN b`}, bad: "2 rows"},
	"KF7":  {nodes: two, edges: ab, run: []string{`MATCH (a:A)-[*0..1]->(b) RETURN b`}, bad: "1 rows 1=n1;"},
	"KF10": {text: true, run: []string{nestedIndex(6), nestedIndex(8)}, bad: "exponential"},
	"KF9":  {zone: "America/Sao_Paulo", run: []string{`RETURN parseDate("2017-10-15", "YYYY-MM-DD") AS d`}, bad: "1 rows d=\"<opencypher.Date 2017-10-14>\";"},
}

// observe runs the statements of a probe
func (p *probe) observe() string {
	c := &Case{Graphs: []GSpec{{Nodes: p.nodes, Edges: p.edges}}, Ctxs: []CtxSpec{{Parent: -1}}}
	rt.FixTail = !p.tail
	if p.zone != "" {
		loc, err := time.LoadLocation(p.zone)
		if err != nil {
			return err.Error()
		}
		time.Local = loc
	}
	setupRun(c)
	if p.text {
		return p.parse()
	}
	w := newRWorldOn(c, nil, nil, nil)
	worlds[0] = w
	r := ""
	for _, s := range p.run {
		rt.StartCount(50000000)
		x := w.ctxs[0]
		if !p.vars {
			x = x.SubContext()
		}
		res := w.evalStmt(s, true, x)
		rt.Stop()
		r = w.digest(res, nil)
	}
	if i := strings.Index(r, " rows "); i > 0 && strings.HasSuffix(p.bad, "rows") {
		r = r[:i+5]
	}
	if i := strings.Index(r, " at "); i > 0 && strings.HasPrefix(r, "panic") {
		r = r[:i]
	}
	return r
}

func nestedIndex(n int) string {
	return "RETURN " + strings.Repeat("x[", n) + "1" + strings.Repeat("]", n)
}

// parse parses two texts of similar length, and compares the memory that takes
func (p *probe) parse() string {
	var use [2]uint64
	for i, t := range p.run {
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		if _, err := cy.Parse(t); err != nil {
			return err.Error()
		}
		runtime.ReadMemStats(&after)
		use[i] = after.TotalAlloc - before.TotalAlloc
	}
	if use[1] > 3*use[0] {
		return "exponential"
	}
	return fmt.Sprint("parsed with ", use)
}

// probeMain exits with 0 if the finding is there
func probeMain(id string) int {
	if id == "" {
		for k, p := range knownProbes {
			fmt.Printf("%s: %q\n", k, p.observe())
		}
		return 0
	}
	p := knownProbes[id]
	if p == nil {
		return 2
	}
	got := p.observe()
	fmt.Println(got)
	if got == p.bad {
		return 0
	}
	return 3
}

// knownFindings confirms the findings listed for the property
func knownFindings(o checkOpts, self string) []string {
	f, err := os.Open(o.known)
	if err != nil {
		return nil
	}
	defer f.Close()
	l := []string{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		pre := "known: property=" + o.prop + " "
		if !strings.HasPrefix(t, pre) {
			continue
		}
		t = t[len(pre):]
		id, text := t, ""
		if i := strings.Index(t, " "); i > 0 {
			id, text = t[:i], t[i+1:]
		}
		cmd := exec.Command(self, "probe", id)
		cmd.Env = childEnv()
		kill := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Run()
		kill.Stop()
		if err == nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", o.prop, id, text)
			l = append(l, id+" "+text)
		} else {
			l = append(l, id+" not seen any more")
		}
	}
	return l
}
