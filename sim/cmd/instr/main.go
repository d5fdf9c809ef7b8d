// Command instr reads the current non-test sources of the code under test and
// writes instrumented copies plus a `go build -overlay` file. The tree itself
// is never modified. Instrumentation:
//
//   - vsim.Y(site) before every statement: a scheduling, accounting and
//     coverage point owned by the simulator;
//   - import "sync" becomes verifsim/vsync (locks that block in the simulator);
//   - time.Now/Since/Until/Sleep become verifsim/vtime (the simulated clock);
//   - runtime.Gosched becomes a scheduling point;
//   - go statements become simulator tasks;
//   - operands of copies, conversions, concatenations and standard library
//     calls are charged by length, so that work hidden in them is counted;
//   - channel operations wait in the simulator;
//   - range over a map walks the keys in an order the simulator picks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const (
	vsimPath  = "verifsim/vsim"
	vsyncPath = "verifsim/vsync"
	vtimePath = "verifsim/vtime"
)

type site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	root    string
	next    int
	sites   []site
	curFn   string
	usesV   bool
	usesT   bool
	usesC   bool
	pkgName map[string]string // local import name -> path, for the file at hand
	oldGo   bool              // the module asks for a language version before 1.21
	level   int               // 3 everything, 2 no costs, 1 no statement yields, 0 nothing
	comms   map[*ast.CommClause]comm
	stats   map[string]int
	words   map[string]map[string]int // package -> constant -> number of occurrences
}

func main() {
	if len(os.Args) != 5 {
		fmt.Fprintln(os.Stderr, "usage: instr REPO OUTDIR SIMMODDIR LEVEL")
		os.Exit(2)
	}
	level, err := strconv.Atoi(os.Args[4])
	if err == nil {
		err = run(os.Args[1], os.Args[2], os.Args[3], level)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run(root, out, simdir string, level int) error {
	in := &inst{level: level, fset: token.NewFileSet(), root: root, next: 1, stats: map[string]int{}, words: map[string]map[string]int{}}
	in.oldGo = true
	if b, err := os.ReadFile(filepath.Join(root, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 || f[0] != "go" {
				continue
			}
			if v := strings.Split(f[1], "."); len(v) > 1 {
				minor, err := strconv.Atoi(v[1])
				in.oldGo = err == nil && v[0] == "1" && minor < 21
			}
		}
	}
	replace := map[string]string{}
	exports, err := exportData(simdir)
	if err != nil {
		return err
	}
	var dirs []string
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		b := filepath.Base(p)
		if p != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "docs" || b == "testing") {
			return filepath.SkipDir
		}
		dirs = append(dirs, p)
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		bp, err := build.Default.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			return err
		}
		if bp.Name == "main" {
			continue
		}
		if err := in.pkg(d, bp.GoFiles, out, replace, exports); err != nil {
			return fmt.Errorf("%s: %v", d, err)
		}
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), ov, 0o644); err != nil {
		return err
	}
	sj, _ := json.Marshal(map[string]interface{}{"sites": in.sites, "stats": in.stats})
	if err := os.WriteFile(filepath.Join(out, "sites.json"), sj, 0o644); err != nil {
		return err
	}
	if err := in.dictionary(out, simdir); err != nil {
		return err
	}
	fmt.Printf("instrumented %d files, %d sites, %v\n", len(replace), in.next-1, in.stats)
	return nil
}

// exportData asks the go command for the export data of everything the
// simulator binary depends on (built without the overlay).
func exportData(simdir string) (map[string]string, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "github.com/influxdata/go-syslog/v3/...")
	cmd.Dir = simdir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list -export: %v", err)
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 2 && f[1] != "" {
			m[f[0]] = f[1]
		}
	}
	return m, nil
}

func (in *inst) pkg(dir string, names []string, out string, replace, exports map[string]string) error {
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(in.fset, filepath.Join(dir, n), nil, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{
		Importer: importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	pkg, err := conf.Check(dir, in.fset, files, in.info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	in.constants(pkg.Name(), files)
	for i, f := range files {
		if usesCgo(f) || in.level == 0 {
			continue
		}
		in.file(f, pkg)
		rel, _ := filepath.Rel(in.root, filepath.Join(dir, names[i]))
		dst := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		w, err := os.Create(dst)
		if err != nil {
			return err
		}
		if in.oldGo {
			fmt.Fprintf(w, "//go:build go1.21\n\n") // the rewritten code needs type parameters
		}
		directives := keepDirectives(f)
		f.Comments = nil
		if directives {
			in.stats["directives"]++
		}
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(w, in.fset, f); err != nil {
			return err
		}
		if err := w.Close(); err != nil {
			return err
		}
		replace[filepath.Join(dir, names[i])] = dst
	}
	return nil
}

// constants counts the integers, characters and strings a package mentions.
func (in *inst) constants(pkg string, files []*ast.File) {
	m := in.words[pkg]
	if m == nil {
		m = map[string]int{}
		in.words[pkg] = m
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			if _, ok := x.(*ast.ImportSpec); ok {
				return false
			}
			e, ok := x.(ast.Expr)
			if !ok {
				return true
			}
			if id, ok := e.(*ast.Ident); ok && in.info.Defs[id] != nil {
				return true
			}
			tv, ok := in.info.Types[e]
			if !ok || tv.Value == nil {
				return true
			}
			switch tv.Value.Kind() {
			case constant.Int:
				if v, ok := constant.Int64Val(tv.Value); ok {
					m["i"+strconv.FormatInt(v, 10)]++
				}
			case constant.String:
				if v := constant.StringVal(tv.Value); len(v) > 0 && len(v) <= 64 {
					m["s"+v]++
				}
			}
			return false
		})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			walk(d)
		}
	}
}

// dictionary writes down the constants that the code under test mentions more
// often than the code these simulations were written for did: generators use
// them now and then as sizes, counts, characters and texts.
func (in *inst) dictionary(out, simdir string) error {
	all, _ := json.MarshalIndent(in.words, "", " ")
	if err := os.WriteFile(filepath.Join(out, "words.json"), append(all, '\n'), 0o644); err != nil {
		return err
	}
	base := map[string]map[string]int{}
	b, err := os.ReadFile(filepath.Join(simdir, "words.json"))
	if err == nil {
		err = json.Unmarshal(b, &base)
	}
	if err != nil && !os.IsNotExist(err) {
		return err
	}
	more := map[string]bool{}
	for p, m := range in.words {
		for w, n := range m {
			if n > base[p][w] && len(base) > 0 {
				more[w] = true
			}
		}
	}
	d := struct {
		Ints []int64  `json:"ints"`
		Strs [][]byte `json:"strs"`
	}{}
	var l []string
	for w := range more {
		l = append(l, w)
	}
	sort.Strings(l)
	for _, w := range l {
		if w[0] == 's' {
			d.Strs = append(d.Strs, []byte(w[1:]))
		} else if v, err := strconv.ParseInt(w[1:], 10, 64); err == nil {
			d.Ints = append(d.Ints, v)
		}
	}
	j, _ := json.Marshal(d)
	in.stats["new constants"] = len(l)
	return os.WriteFile(filepath.Join(out, "dict.json"), j, 0o644)
}

func usesCgo(f *ast.File) bool {
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return true
		}
	}
	return false
}

// keepDirectives drops ordinary comments from declarations (positions are
// stale after the rewrite) and keeps //go: directives in doc comments.
func keepDirectives(f *ast.File) bool {
	found := false
	strip := func(cg *ast.CommentGroup) *ast.CommentGroup {
		if cg == nil {
			return nil
		}
		var keep []*ast.Comment
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:") && !strings.HasPrefix(c.Text, "//go:build") && !strings.HasPrefix(c.Text, "//go:generate") {
				keep = append(keep, c)
				found = true
			}
		}
		if keep == nil {
			return nil
		}
		return &ast.CommentGroup{List: keep}
	}
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.FuncDecl:
			d.Doc = strip(d.Doc)
		case *ast.GenDecl:
			d.Doc = strip(d.Doc)
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		}
		return true
	})
	return found
}

func (in *inst) file(f *ast.File, pkg *types.Package) {
	in.usesV, in.usesT, in.usesC = false, false, false
	in.pkgName = map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		in.pkgName[name] = p
		if p == "sync" {
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			im.Path.Value = strconv.Quote(vsyncPath)
			in.stats["sync"]++
		}
	}
	for _, d := range f.Decls {
		in.curFn = "init"
		if fd, ok := d.(*ast.FuncDecl); ok {
			in.curFn = fd.Name.Name
		}
		in.chans(d)
		if in.level >= 3 {
			in.costs(d)
		}
		in.rewriteSelectors(d)
		in.blocks(d)
	}
	var add []ast.Spec
	spec := func(name, path string) {
		add = append(add, &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}})
	}
	if in.usesV {
		spec("vsimX", vsimPath)
	}
	if in.usesT {
		spec("vtimeX", vtimePath)
	}
	var decls []ast.Decl
	for _, s := range add {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	f.Decls = append(decls, f.Decls...)
	// Imports that the rewrite may have left without a use.
	var keep []ast.Decl
	for name, p := range in.pkgName {
		if p == "time" && in.usesT {
			keep = append(keep, blankUse(name, "Now"))
		}
		if p == "context" && in.usesC {
			keep = append(keep, blankUse(name, "Background"))
		}
		if p == "runtime" && in.stats["gosched"] > 0 {
			keep = append(keep, blankUse(name, "GC"))
		}
	}
	f.Decls = append(f.Decls, keep...)
}

func blankUse(pkg, sel string) ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(sel)}}}}}
}

func (in *inst) rewriteSelectors(d ast.Node) {
	ast.Inspect(d, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := in.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		switch pn.Imported().Path() {
		case "time":
			switch se.Sel.Name {
			case "Now", "Since", "Until", "Sleep", "After", "NewTimer", "NewTicker", "AfterFunc", "Tick", "Timer", "Ticker":
				id.Name = "vtimeX"
				in.usesT = true
				in.stats["time."+se.Sel.Name]++
			}
		case "context":
			switch se.Sel.Name {
			case "WithTimeout", "WithDeadline":
				id.Name = "vtimeX"
				in.usesT, in.usesC = true, true
				in.stats["context."+se.Sel.Name]++
			}
		case "runtime":
			if se.Sel.Name == "Gosched" {
				id.Name = "vsimX"
				in.usesV = true
				in.stats["gosched"]++
			}
		}
		return true
	})
}

// costs wraps what is copied or handed to other packages, so that its length is
// counted as work.
func (in *inst) costs(d ast.Node) {
	text := func(e ast.Expr) (string, bool) {
		tv, ok := in.info.Types[e]
		if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() || tv.IsType() {
			return "", false
		}
		if _, ok := tv.Type.(*types.TypeParam); ok {
			return "", false
		}
		switch t := tv.Type.Underlying().(type) {
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				return "CostT", true
			}
		case *types.Slice:
			return "CostS", true
		}
		return "", false
	}
	isCat := func(e ast.Expr) bool {
		b, ok := ast.Unparen(e).(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD {
			return false
		}
		f, ok := text(b)
		return ok && f == "CostT"
	}
	var cats []*ast.BinaryExpr
	var calls []*ast.CallExpr
	var adds []*ast.AssignStmt
	ast.Inspect(d, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			if isCat(x) {
				cats = append(cats, x)
			}
		case *ast.CallExpr:
			calls = append(calls, x)
		case *ast.AssignStmt:
			if x.Tok == token.ADD_ASSIGN {
				adds = append(adds, x)
			}
		}
		return true
	})
	// Types are looked up before any node is replaced: collect the edits first.
	var edits []func()
	edit := func(e *ast.Expr) {
		if _, ok := text(*e); ok {
			edits = append(edits, func() { wrap2(in, e, text) })
		}
	}
	for _, c := range cats {
		if !isCat(c.X) {
			edit(&c.X)
		}
		if !isCat(c.Y) {
			edit(&c.Y)
		}
	}
	for _, c := range calls {
		tv, ok := in.info.Types[c.Fun]
		if !ok {
			continue
		}
		if tv.IsType() {
			if len(c.Args) == 1 {
				_, sl := tv.Type.Underlying().(*types.Slice)
				b, bs := tv.Type.Underlying().(*types.Basic)
				from, to := "", ""
				if sl {
					to = "CostS"
				} else if bs && b.Info()&types.IsString != 0 {
					to = "CostT"
				}
				from, _ = text(c.Args[0])
				if to != "" && from != "" && to != from {
					edit(&c.Args[0])
				}
			}
			continue
		}
		if tv.IsBuiltin() {
			id, ok := ast.Unparen(c.Fun).(*ast.Ident)
			if !ok {
				continue
			}
			if id.Name == "append" && c.Ellipsis.IsValid() || id.Name == "copy" {
				edit(&c.Args[1])
			}
			continue
		}
		se, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			continue
		}
		o := in.info.Uses[se.Sel]
		if o == nil || o.Pkg() == nil || strings.HasPrefix(o.Pkg().Path(), "github.com/influxdata/go-syslog") || strings.HasPrefix(o.Pkg().Path(), in.root) {
			continue
		}
		if fn, ok := o.(*types.Func); !ok || fn.Type().(*types.Signature).TypeParams().Len() > 0 {
			continue
		}
		for i := range c.Args {
			edit(&c.Args[i])
		}
	}
	for _, a := range adds {
		if len(a.Rhs) != 1 {
			continue
		}
		if f, ok := text(a.Lhs[0]); !ok || f != "CostT" {
			continue
		}
		a := a
		switch l := a.Lhs[0].(type) {
		case *ast.Ident:
			edits = append(edits, func() {
				in.usesV = true
				a.Rhs[0] = &ast.CallExpr{Fun: sel("vsimX", "CostA"), Args: []ast.Expr{ast.NewIdent(l.Name), a.Rhs[0]}}
			})
		case *ast.SelectorExpr:
			if id, ok := l.X.(*ast.Ident); ok {
				edits = append(edits, func() {
					in.usesV = true
					a.Rhs[0] = &ast.CallExpr{Fun: sel("vsimX", "CostA"), Args: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(l.Sel.Name)}, a.Rhs[0]}}
				})
			}
		}
	}
	for _, f := range edits {
		f()
	}
}

func wrap2(in *inst, e *ast.Expr, text func(ast.Expr) (string, bool)) {
	f, ok := text(*e)
	if !ok {
		return // wrapped already
	}
	in.usesV = true
	in.stats["cost"]++
	*e = &ast.CallExpr{Fun: sel("vsimX", f), Args: []ast.Expr{*e}}
}

func (in *inst) y(pos token.Pos) ast.Stmt {
	in.usesV = true
	id := in.next
	in.next++
	p := in.fset.Position(pos)
	rel, err := filepath.Rel(in.root, p.Filename)
	if err != nil {
		rel = p.Filename
	}
	in.sites = append(in.sites, site{ID: id, Pos: fmt.Sprintf("%s:%d", rel, p.Line), Func: in.curFn})
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("vsimX", "Y"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)}}}}
}

func sel(a, b string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent(a), Sel: ast.NewIdent(b)} }

// blocks instruments every statement list below n. Inner lists first, so that
// the rewritten nodes are not visited again.
func (in *inst) blocks(n ast.Node) {
	used := map[string]bool{} // labels used by break/continue
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok && b.Label != nil && (b.Tok == token.BREAK || b.Tok == token.CONTINUE) {
			used[b.Label.Name] = true
		}
		return true
	})
	var lists []*[]ast.Stmt
	var conds []*ast.ForStmt
	ast.Inspect(n, func(x ast.Node) bool {
		switch b := x.(type) {
		case *ast.BlockStmt:
			lists = append(lists, &b.List)
		case *ast.CaseClause:
			lists = append(lists, &b.Body)
		case *ast.CommClause:
			lists = append(lists, &b.Body)
		case *ast.ForStmt:
			conds = append(conds, b)
		case *ast.RangeStmt:
			if len(b.Body.List) == 0 {
				b.Body.List = append(b.Body.List, &ast.EmptyStmt{Semicolon: b.Body.Lbrace})
			}
		}
		return true
	})
	for _, f := range conds {
		if len(f.Body.List) == 0 {
			f.Body.List = append(f.Body.List, &ast.EmptyStmt{Semicolon: f.Body.Lbrace})
		}
	}
	// switch/select bodies are BlockStmts whose list holds clauses only
	clause := map[*[]ast.Stmt]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.SwitchStmt:
			clause[&s.Body.List] = true
		case *ast.TypeSwitchStmt:
			clause[&s.Body.List] = true
		case *ast.SelectStmt:
			clause[&s.Body.List] = true
		}
		return true
	})
	for i := len(lists) - 1; i >= 0; i-- {
		if clause[lists[i]] {
			continue
		}
		*lists[i] = in.stmts(*lists[i], used)
	}
}

func (in *inst) stmts(list []ast.Stmt, used map[string]bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		pos := s.Pos()
		if ls, ok := s.(*ast.LabeledStmt); ok {
			if used[ls.Label.Name] {
				if in.level >= 2 {
					out = append(out, in.y(pos))
				}
				ls.Stmt = in.simple(ls.Stmt)
				out = append(out, ls)
				continue
			}
			if in.level < 2 {
				ls.Stmt = in.simple(ls.Stmt)
				out = append(out, ls)
				continue
			}
			inner := ls.Stmt
			ls.Stmt = in.y(pos)
			out = append(out, ls)
			if _, ok := inner.(*ast.EmptyStmt); ok {
				continue
			}
			if l2, ok := inner.(*ast.LabeledStmt); ok {
				out = append(out, in.stmts([]ast.Stmt{l2}, used)...)
				continue
			}
			out = append(out, in.simple(inner))
			continue
		}
		if in.level >= 2 {
			out = append(out, in.y(pos))
		}
		out = append(out, in.simple(s))
	}
	return out
}

// simple rewrites one statement if the simulator must own what it does.
func (in *inst) simple(s ast.Stmt) ast.Stmt {
	switch t := s.(type) {
	case *ast.RangeStmt:
		if tv, ok := in.info.Types[t.X]; ok && tv.Type != nil {
			switch tv.Type.Underlying().(type) {
			case *types.Map:
				return in.mapRange(t)
			case *types.Chan:
				return in.chanRange(t)
			}
		}
		return t
	case *ast.GoStmt:
		in.usesV = true
		in.stats["go"]++
		// go f(a, b): evaluate f, a and b now, run later as a simulator task.
		var lhs, rhs []ast.Expr
		call := &ast.CallExpr{Fun: t.Call.Fun, Ellipsis: t.Call.Ellipsis}
		if _, lit := t.Call.Fun.(*ast.FuncLit); !lit {
			if tv, ok := in.info.Types[t.Call.Fun]; ok && tv.IsBuiltin() {
				return s
			}
			lhs = append(lhs, ast.NewIdent("vsF"))
			rhs = append(rhs, t.Call.Fun)
			call.Fun = ast.NewIdent("vsF")
		}
		for i, a := range t.Call.Args {
			if tv, ok := in.info.Types[a]; ok && tv.Value != nil || isNil(a) {
				call.Args = append(call.Args, a)
				continue
			}
			n := ast.NewIdent(fmt.Sprintf("vsA%d", i))
			lhs = append(lhs, n)
			rhs = append(rhs, a)
			call.Args = append(call.Args, n)
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
		spawn := &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("vsimX", "Go"), Args: []ast.Expr{lit}}}
		if len(lhs) == 0 {
			return spawn
		}
		return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, spawn}}
	case *ast.SendStmt:
		in.usesV = true
		in.stats["chan"]++
		return sendStmt("SendTo", t.Chan, t.Value)
	case *ast.SelectStmt:
		return in.selectStmt(t)
	}
	return s
}

func isNil(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "nil"
}

func (in *inst) mapRange(r *ast.RangeStmt) ast.Stmt {
	in.usesV = true
	in.stats["map range"]++
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	// for k, v := range m   =>   for _, vsE := range vsim.MapEntries(m) { if !vsE.Live() {continue}; k, v := vsE.K, vsE.Get(); body }
	e := ast.NewIdent("vsE")
	body := []ast.Stmt{&ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Live")}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
	}}
	if !blank(r.Key) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.Key}, Tok: r.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: ast.NewIdent("K")}}})
	}
	if !blank(r.Value) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.Value}, Tok: r.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Get")}}}})
	}
	body = append(body, r.Body.List...)
	return &ast.RangeStmt{
		Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE,
		X:    &ast.CallExpr{Fun: sel("vsimX", "MapEntries"), Args: []ast.Expr{r.X}},
		Body: &ast.BlockStmt{List: body},
	}
}

// ---- channels

// A comm is the communication of a select case.
type comm struct {
	ch, val ast.Expr
	lhs     []ast.Expr
	tok     token.Token
}

func sendStmt(f string, c, v ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.CallExpr{Fun: sel("vsimX", f), Args: []ast.Expr{c}}, Args: []ast.Expr{v}}}
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW {
		return nil
	}
	return u
}

// chans replaces receives, close and make of channels, and notes what the
// cases of select statements do.
func (in *inst) chans(d ast.Node) {
	in.comms = map[*ast.CommClause]comm{}
	skip := map[ast.Node]bool{}
	two := map[*ast.UnaryExpr]bool{}
	ast.Inspect(d, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.SendStmt:
				in.comms[x] = comm{ch: c.Chan, val: c.Value}
			case *ast.ExprStmt:
				if u := arrow(c.X); u != nil {
					in.comms[x] = comm{ch: u.X}
					skip[u] = true
				}
			case *ast.AssignStmt:
				if u := arrow(c.Rhs[0]); u != nil {
					in.comms[x] = comm{ch: u.X, lhs: c.Lhs, tok: c.Tok}
					skip[u] = true
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := arrow(x.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := arrow(x.Values[0]); u != nil {
					two[u] = true
				}
			}
		}
		return true
	})
	swap := func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || skip[x] {
				return nil
			}
			in.usesV = true
			in.stats["chan"]++
			f := "Recv"
			if two[x] {
				f = "Recv2"
			}
			return &ast.CallExpr{Fun: sel("vsimX", f), Args: []ast.Expr{x.X}}
		case *ast.CallExpr:
			tv, ok := in.info.Types[x.Fun]
			id, isID := ast.Unparen(x.Fun).(*ast.Ident)
			if !ok || !tv.IsBuiltin() || !isID {
				return nil
			}
			switch id.Name {
			case "close":
				in.usesV = true
				x.Fun = sel("vsimX", "Close")
			case "make":
				ct, ok := in.info.Types[x.Args[0]]
				if !ok || ct.Type == nil {
					return nil
				}
				c, ok := ct.Type.Underlying().(*types.Chan)
				if !ok || c.Dir() != types.SendRecv {
					return nil
				}
				in.usesV = true
				in.stats["chan"]++
				var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
				if len(x.Args) > 1 {
					n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{x.Args[1]}}
				}
				return &ast.CallExpr{Fun: &ast.IndexExpr{X: sel("vsimX", "MakeChan"), Index: x.Args[0]}, Args: []ast.Expr{n}}
			}
		}
		return nil
	}
	ast.Inspect(d, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n).Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i).Addr().Interface().(type) {
			case *ast.Expr:
				if *f != nil {
					if e := swap(*f); e != nil {
						*f = e
					}
				}
			case *[]ast.Expr:
				for j := range *f {
					if e := swap((*f)[j]); e != nil {
						(*f)[j] = e
					}
				}
			case **ast.CallExpr: // go, defer
				if *f != nil {
					swap(*f)
				}
			}
		}
		return true
	})
}

// selectStmt turns a select into a switch over the case the simulator picks.
func (in *inst) selectStmt(t *ast.SelectStmt) ast.Stmt {
	in.usesV = true
	in.stats["select"]++
	var lhs, rhs, cases []ast.Expr
	var clauses []ast.Stmt
	def := "false"
	for i, s := range t.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			def = "true"
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		c, ok := in.comms[cc]
		if !ok {
			return t
		}
		ch := ast.NewIdent(fmt.Sprintf("vsC%d", i))
		if isNil(c.ch) {
			return t
		}
		lhs, rhs = append(lhs, ch), append(rhs, c.ch)
		f := "CaseR"
		var op ast.Stmt
		if c.val != nil {
			f = "CaseS"
			val := c.val
			if tv, ok := in.info.Types[c.val]; !(ok && tv.Value != nil || isNil(c.val)) {
				val = ast.NewIdent(fmt.Sprintf("vsV%d", i))
				lhs, rhs = append(lhs, val), append(rhs, c.val)
			}
			op = sendStmt("SelSend", ch, val)
		} else {
			g := "SelRecv"
			if len(c.lhs) == 2 {
				g = "SelRecv2"
			}
			call := &ast.CallExpr{Fun: sel("vsimX", g), Args: []ast.Expr{ch}}
			if c.lhs == nil {
				op = &ast.ExprStmt{X: call}
			} else {
				op = &ast.AssignStmt{Lhs: c.lhs, Tok: c.tok, Rhs: []ast.Expr{call}}
			}
		}
		n := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases))}
		cases = append(cases, &ast.CallExpr{Fun: sel("vsimX", f), Args: []ast.Expr{ch}})
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{n}, Body: append([]ast.Stmt{op}, cc.Body...)})
	}
	if def == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("unreachable")}}}}}})
	}
	sw := &ast.SwitchStmt{Tag: &ast.CallExpr{Fun: sel("vsimX", "Select"), Args: append([]ast.Expr{ast.NewIdent(def)}, cases...)}, Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		for i := range rhs {
			rhs[i] = &ast.ParenExpr{X: rhs[i]} // a composite literal may not stand bare in a switch header
		}
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

// chanRange turns a range over a channel into a loop of receives.
func (in *inst) chanRange(r *ast.RangeStmt) ast.Stmt {
	in.usesV = true
	in.stats["chan"]++
	c, ok := ast.NewIdent("vsC"), ast.NewIdent("vsOK")
	call := &ast.CallExpr{Fun: sel("vsimX", "Recv2"), Args: []ast.Expr{c}}
	var body []ast.Stmt
	key := r.Key
	if key == nil {
		key = ast.NewIdent("_")
	}
	if r.Tok == token.ASSIGN && r.Key != nil {
		body = append(body,
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call}})
	} else {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call}})
	}
	body = append(body, &ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: ok},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}},
	})
	body = append(body, r.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.ParenExpr{X: r.X}}},
		Body: &ast.BlockStmt{List: body},
	}
}
