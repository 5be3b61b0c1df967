// Command instr makes instrumented copies of the code under test and the
// libraries it runs on. The copies call the simulator runtime
// (verif.sim/rt) before every statement and in place of everything that
// is not determined by the input: map iteration order, the clock, zone
// lookups, locks, goroutines, console output. The original files are
// only read.
//
//	instr -repo DIR -rt DIR -out DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type module struct {
	Path      string
	Version   string
	Dir       string
	GoVersion string
	Main      bool
}

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	OtherFiles []string
	EmbedFiles []string
	Standard   bool
	Module     *module
	Error      *struct{ Err string }
}

// Modules with instrumented copies, and how densely they yield
var dense = map[string]bool{
	"github.com/cloudprivacylabs/lpg/v2": true,
}
var sparse = map[string]bool{
	"github.com/antlr/antlr4/runtime/Go/antlr": true,
	"github.com/nleeper/goment":                true,
}

// Modules that only yield in functions with locks: nothing else in them
// is shared, and parsing a line takes millions of calls
var lockOnly = map[string]bool{
	"github.com/antlr/antlr4/runtime/Go/antlr": true,
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type edit struct {
	off, del int
	text     string
	seq      int
}

type site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var sites = []site{{}}

type stats struct {
	Packages, Files, Yields, MapRanges, Clock, Sync, Go, Chan, Output int
}

var st stats

func main() {
	repo := flag.String("repo", "/repo", "")
	rtDir := flag.String("rt", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,OtherFiles,EmbedFiles,Standard,Module,Error", ".")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*pkg
	exports := map[string]string{}
	dec := json.NewDecoder(strings.NewReader(string(data)))
	var mainMod *module
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil {
			if p.Module.Main {
				mainMod = p.Module
			}
			pkgs = append(pkgs, p)
		}
	}
	if mainMod == nil {
		die("no main module")
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	dirs := map[string]string{}
	mods := map[string]*module{}
	for _, p := range pkgs {
		if !p.Module.Main && !dense[p.Module.Path] && !sparse[p.Module.Path] {
			continue
		}
		name := strings.NewReplacer("/", "_", ".", "_").Replace(p.Module.Path)
		dirs[p.Module.Path] = name
		mods[p.Module.Path] = p.Module
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dst := filepath.Join(*out, name, rel)
		if err := os.MkdirAll(dst, 0755); err != nil {
			die("%v", err)
		}
		isDense := dense[p.Module.Path] || p.Module.Main && !strings.HasSuffix(p.ImportPath, "/parser")
		st.Packages++
		instrument(fset, imp, p, dst, isDense)
		for _, f := range append(append([]string{}, p.OtherFiles...), p.EmbedFiles...) {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				die("%v", err)
			}
			os.MkdirAll(filepath.Dir(filepath.Join(dst, f)), 0755)
			if err := os.WriteFile(filepath.Join(dst, f), b, 0644); err != nil {
				die("%v", err)
			}
		}
	}
	// go.mod of the copies
	for path, m := range mods {
		writeGoMod(filepath.Join(*out, dirs[path], "go.mod"), filepath.Join(m.Dir, "go.mod"), path)
	}
	patchLpg(filepath.Join(*out, dirs["github.com/cloudprivacylabs/lpg/v2"], "list.go"))
	var gm strings.Builder
	gm.WriteString("module verif.sim/drv\n\ngo 1.24\n\n")
	fmt.Fprintf(&gm, "require verif.sim/rt v0.0.0\nreplace verif.sim/rt => %s\n", *rtDir)
	var paths []string
	for path := range mods {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		v := mods[path].Version
		if v == "" {
			v = "v0.0.0"
		}
		fmt.Fprintf(&gm, "require %s %s\nreplace %s => %s\n", path, v, path, filepath.Join(*out, dirs[path]))
	}
	// versions of the libraries that are not copied
	have := map[string]bool{}
	for _, p := range pkgs {
		if mods[p.Module.Path] == nil && !have[p.Module.Path] {
			have[p.Module.Path] = true
			fmt.Fprintf(&gm, "require %s %s\n", p.Module.Path, p.Module.Version)
		}
	}
	drv := filepath.Join(*out, "drv")
	os.MkdirAll(drv, 0755)
	if err := os.WriteFile(filepath.Join(drv, "go.mod"), []byte(gm.String()), 0644); err != nil {
		die("%v", err)
	}
	sum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	os.WriteFile(filepath.Join(drv, "go.sum"), sum, 0644)
	var ss strings.Builder
	for _, s := range sites {
		fmt.Fprintf(&ss, "%s:%d %s\n", s.File, s.Line, s.Func)
	}
	os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(ss.String()), 0644)
	b, _ := json.Marshal(st)
	os.WriteFile(filepath.Join(*out, "stats.json"), b, 0644)
	fmt.Printf("instrumented: %s\n", b)
}

// The copies need a language version with generics, and loop variables
// with the semantics of the original
func writeGoMod(dst, src, path string) {
	b, err := os.ReadFile(src)
	if err != nil {
		b = []byte("module " + path + "\n")
	}
	var o []string
	hasGo := false
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "go" {
			hasGo = true
			parts := strings.Split(f[1], ".")
			minor := 0
			if len(parts) > 1 {
				minor, _ = strconv.Atoi(parts[1])
			}
			if minor < 21 {
				l = "go 1.21"
			}
		}
		if len(f) > 0 && f[0] == "toolchain" {
			continue
		}
		o = append(o, l)
	}
	if !hasGo {
		o = append(o, "go 1.21")
	}
	o = append(o, "require verif.sim/rt v0.0.0", "")
	if err := os.WriteFile(dst, []byte(strings.Join(o, "\n")), 0644); err != nil {
		die("%v", err)
	}
}

// patchLpg makes known finding KF1 (removing the last element of the
// node list leaves the list with a wrong tail) switchable, because it
// would hide everything that happens after it
func patchLpg(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	const from = "list.tail = node"
	s := string(b)
	i := strings.Index(s, "func (list *nodeList) remove(")
	if i < 0 {
		die("lpg patch: remove not found")
	}
	j := strings.Index(s[i:], from)
	if j < 0 {
		die("lpg patch: statement not found")
	}
	s = s[:i+j] + "list.tail = node; if simrt__.FixTail { list.tail = node.prev }" + s[i+j+len(from):]
	if err := os.WriteFile(file, []byte(s), 0644); err != nil {
		die("%v", err)
	}
}

func instrument(fset *token.FileSet, imp types.Importer, p *pkg, dst string, isDense bool) {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(name)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: imp, Error: func(err error) {}}
	if _, err := cfg.Check(p.ImportPath, fset, files, info); err != nil {
		fmt.Fprintf(os.Stderr, "instr: type check of %s: %v\n", p.ImportPath, err)
	}
	for i, af := range files {
		st.Files++
		in := &instr{fset: fset, info: info, src: srcs[i], file: af, dense: isDense, pkg: p}
		o := in.run()
		if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), o, 0644); err != nil {
			die("%v", err)
		}
	}
}

type instr struct {
	fset   *token.FileSet
	info   *types.Info
	src    []byte
	file   *ast.File
	dense  bool
	pkg    *pkg
	edits  []edit
	fn     string
	nIter  int
	mute   bool
	guards map[string]bool
	// communications of select statements, and receiving with two results
	labels    map[ast.Node]string
	comm      map[ast.Node]bool
	twoValues map[ast.Node]bool
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) add(off, del int, text string) {
	in.edits = append(in.edits, edit{off, del, text, len(in.edits)})
}

func (in *instr) yield(pos token.Pos) string {
	if in.mute {
		return ""
	}
	p := in.fset.Position(pos)
	sites = append(sites, site{filepath.Base(in.pkg.Dir) + "/" + filepath.Base(p.Filename), p.Line, in.fn})
	st.Yields++
	return fmt.Sprintf("simrt__.Y(%d);", len(sites)-1)
}

func (in *instr) list(l []ast.Stmt) {
	if !in.dense {
		return
	}
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		in.add(in.off(s.Pos()), 0, in.yield(s.Pos()))
	}
}

func (in *instr) loopBody(b *ast.BlockStmt, prefix string) {
	t := prefix
	if !in.dense || len(b.List) == 0 {
		t += in.yield(b.Lbrace)
	}
	if t != "" {
		in.add(in.off(b.Lbrace)+1, 0, t)
	}
}

func (in *instr) run() []byte {
	in.guards = map[string]bool{}
	in.labels = map[ast.Node]string{}
	in.comm, in.twoValues = map[ast.Node]bool{}, map[ast.Node]bool{}
	// imports
	nameEnd := in.off(in.file.Name.End())
	in.add(nameEnd, 0, `; import simrt__ "verif.sim/rt"`)
	for _, s := range in.file.Imports {
		if s.Path.Value == `"sync"` {
			st.Sync++
			t := `"verif.sim/rt/simsync"`
			if s.Name == nil {
				t = "sync " + t
			}
			in.add(in.off(s.Path.Pos()), len(s.Path.Value), t)
		}
	}
	for _, d := range in.file.Decls {
		in.fn = ""
		in.mute = lockOnly[in.pkg.Module.Path] && !hasLock(d)
		if f, ok := d.(*ast.FuncDecl); ok {
			in.fn = f.Name.Name
			if f.Recv != nil && len(f.Recv.List) > 0 {
				if x := in.text(f.Recv.List[0].Type); len(x) < 60 {
					in.fn = "(" + x + ")." + in.fn
				}
			}
			if f.Body != nil && (!in.dense || len(f.Body.List) == 0) {
				in.add(in.off(f.Body.Lbrace)+1, 0, in.yield(f.Body.Lbrace))
			}
		}
		ast.Inspect(d, in.visit)
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].off != in.edits[j].off {
			return in.edits[i].off < in.edits[j].off
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var o []byte
	pos := 0
	for _, e := range in.edits {
		if e.off < pos {
			// nested in a rewritten range clause
			die("overlapping edits in %s at %d", in.fset.Position(in.file.Pos()).Filename, e.off)
		}
		o = append(o, in.src[pos:e.off]...)
		o = append(o, e.text...)
		pos = e.off + e.del
	}
	o = append(o, in.src[pos:]...)
	o = append(o, "\nvar _ = simrt__.Y\n"...)
	var gs []string
	for g := range in.guards {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		o = append(o, "var _ "+g+"\n"...)
	}
	return o
}

func hasLock(d ast.Node) bool {
	found := false
	ast.Inspect(d, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			switch s.Sel.Name {
			case "Lock", "RLock", "Unlock", "RUnlock":
				found = true
			}
		}
		return !found
	})
	return found
}

func (in *instr) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *instr) visit(n ast.Node) bool {
	switch s := n.(type) {
	case *ast.BlockStmt:
		in.list(s.List)
	case *ast.CaseClause:
		in.list(s.Body)
	case *ast.CommClause:
		if s.Comm != nil {
			in.add(in.off(s.Colon)+1, 0, "simrt__.Released();")
		}
		in.list(s.Body)
	case *ast.LabeledStmt:
		if x, ok := s.Stmt.(*ast.SelectStmt); ok {
			in.labels[x] = s.Label.Name
		}
	case *ast.SelectStmt:
		in.selectStmt(s)
	case *ast.SendStmt:
		if in.comm[s] {
			break
		}
		st.Chan++
		in.add(in.off(s.Chan.Pos()), 0, "simrt__.SendTo(")
		in.add(in.off(s.Arrow), 2, ")(")
		in.add(in.off(s.End()), 0, ")")
	case *ast.UnaryExpr:
		if s.Op != token.ARROW || in.comm[s] {
			break
		}
		st.Chan++
		f := "simrt__.Recv("
		if in.twoValues[s] {
			f = "simrt__.Recv2("
		}
		in.add(in.off(s.OpPos), 2, f)
		in.add(in.off(s.End()), 0, ")")
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			in.two(s.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(s.Names) == 2 && len(s.Values) == 1 {
			in.two(s.Values[0])
		}
	case *ast.FuncLit:
		if !in.dense || len(s.Body.List) == 0 {
			in.add(in.off(s.Body.Lbrace)+1, 0, in.yield(s.Body.Lbrace))
		}
	case *ast.ForStmt:
		in.loopBody(s.Body, "")
	case *ast.RangeStmt:
		in.rangeStmt(s)
	case *ast.SelectorExpr:
		in.selector(s)
	case *ast.GoStmt:
		st.Go++
		if len(s.Call.Args) == 0 {
			in.add(in.off(s.Go), 2, "simrt__.Go(")
			in.add(in.off(s.Call.Lparen), in.off(s.Call.Rparen)+1-in.off(s.Call.Lparen), ")")
		} else {
			in.add(in.off(s.Go), 2, "simrt__.Go(func() {")
			in.add(in.off(s.Call.End()), 0, "})")
		}
	case *ast.CallExpr:
		if f, ok := s.Fun.(*ast.Ident); ok {
			if b, ok := in.info.Uses[f].(*types.Builtin); ok {
				switch {
				case b.Name() == "close":
					in.add(in.off(f.Pos()), len("close"), "simrt__.Close")
				case b.Name() == "make" && len(s.Args) == 1:
					// Only one thread runs, so that the two ends of a channel
					// without buffer would never meet
					if t := in.info.TypeOf(s.Args[0]); t != nil {
						if _, ok := t.Underlying().(*types.Chan); ok {
							in.add(in.off(s.Args[0].End()), 0, ", 1")
						}
					}
				}
			}
		}
		if f, ok := s.Fun.(*ast.SelectorExpr); ok && in.pkgOf(f) == "fmt" && strings.HasPrefix(f.Sel.Name, "Fprint") && len(s.Args) > 0 {
			if a, ok := s.Args[0].(*ast.SelectorExpr); ok && in.pkgOf(a) == "os" && (a.Sel.Name == "Stdout" || a.Sel.Name == "Stderr") {
				in.replace(a, a.Sel.Name, "FileMode")
			}
		}
	}
	return true
}

func (in *instr) pkgOf(s *ast.SelectorExpr) string {
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

func (in *instr) replace(s *ast.SelectorExpr, name, guard string) {
	st.Output++
	in.guards[in.text(s.X)+"."+guard] = true
	in.add(in.off(s.Pos()), in.off(s.End())-in.off(s.Pos()), "simrt__."+name)
}

// two notes receiving with two results
func (in *instr) two(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		in.twoValues[u] = true
	}
}

// selectStmt: a select without default tries and gives up the baton
func (in *instr) selectStmt(s *ast.SelectStmt) {
	def := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		in.comm[cc.Comm] = true
		var e ast.Expr
		switch x := cc.Comm.(type) {
		case *ast.ExprStmt:
			e = x.X
		case *ast.AssignStmt:
			e = x.Rhs[0]
		}
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if e != nil {
			in.comm[e] = true
		}
	}
	if def {
		return
	}
	st.Chan++
	label := in.labels[s]
	if label == "" {
		in.nIter++
		label = fmt.Sprintf("simsel%d__", in.nIter)
		in.add(in.off(s.Select), 0, label+": ")
	}
	in.add(in.off(s.Body.Rbrace), 0, fmt.Sprintf(";default: simrt__.SelectWait(); goto %s;", label))
}

func (in *instr) selector(s *ast.SelectorExpr) {
	switch in.pkgOf(s) {
	case "time":
		switch s.Sel.Name {
		case "Now", "Since", "Until", "Sleep", "LoadLocation":
			st.Clock++
			st.Output--
			in.replace(s, s.Sel.Name, "Duration")
		}
	case "runtime":
		if s.Sel.Name == "Gosched" {
			st.Output--
			in.replace(s, s.Sel.Name, "Error")
		}
	case "fmt":
		switch s.Sel.Name {
		case "Print", "Println", "Printf":
			in.replace(s, s.Sel.Name, "Stringer")
		}
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *instr) rangeStmt(s *ast.RangeStmt) {
	tv, ok := in.info.Types[s.X]
	isMap := false
	if ok && tv.Type != nil {
		if _, isChan := tv.Type.Underlying().(*types.Chan); isChan {
			st.Chan++
			in.nIter++
			it := fmt.Sprintf("simit%d__", in.nIter)
			start := in.off(s.For)
			xs, xe := in.off(s.X.Pos()), in.off(s.X.End())
			in.add(start, xs-start, fmt.Sprintf("for %s := simrt__.ChanIt(", it))
			in.add(xe, 0, fmt.Sprintf("); %s.Next();", it))
			p := ""
			if !isBlank(s.Key) {
				p = fmt.Sprintf("%s %s %s.V;", in.text(s.Key), s.Tok, it)
			}
			in.loopBody(s.Body, p)
			return
		}
		_, isMap = tv.Type.Underlying().(*types.Map)
	}
	if !isMap {
		in.loopBody(s.Body, "")
		return
	}
	st.MapRanges++
	in.nIter++
	it := fmt.Sprintf("simit%d__", in.nIter)
	key, val := "_", "_"
	if s.Key != nil {
		key = in.text(s.Key)
	}
	if s.Value != nil {
		val = in.text(s.Value)
	}
	start := in.off(s.For)
	xs, xe := in.off(s.X.Pos()), in.off(s.X.End())
	if s.Tok == token.DEFINE && !(isBlank(s.Key) && isBlank(s.Value)) {
		in.add(start, xs-start, fmt.Sprintf("for %s, %s, %s := simrt__.MapStart(", key, val, it))
		in.add(xe, 0, fmt.Sprintf("); %s.Ok(); %s, %s = %s.Next()", it, key, val, it))
		in.loopBody(s.Body, "")
		return
	}
	in.add(start, xs-start, fmt.Sprintf("for %s := simrt__.It(", it))
	in.add(xe, 0, fmt.Sprintf("); %s.Ok(); %s.Adv()", it, it))
	p := ""
	if !(isBlank(s.Key) && isBlank(s.Value)) {
		p = fmt.Sprintf("%s, %s = %s.Key(), %s.Val();", key, val, it, it)
	}
	in.loopBody(s.Body, p)
}
