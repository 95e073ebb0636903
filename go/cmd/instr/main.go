// Command instr instruments Go packages in place so that their synchronisation, time,
// file and network operations go through the explorer (verif/mc).
//
// Usage: instr <module dir> <package dir relative to it>...
//
// What the packages do is not changed: only imports are redirected, and the language
// constructs that have no function form (go, channels, select, range over maps) are
// replaced by calls with the same meaning. In addition every package gets a function
// that gives its variables the state they have at the start of the program.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"sync":        "verif/shim/sync",
	"sync/atomic": "verif/shim/atomic",
	"time":        "verif/shim/time",
	"os":          "verif/shim/os",
	"io/ioutil":   "verif/shim/ioutil",
	"net":         "verif/shim/net",
	"crypto/tls":  "verif/shim/tls",
	"crypto/rand": "verif/shim/rand",
	"math/rand":   "verif/shim/mrand",
	"log":         "verif/shim/log",
	"runtime":     "verif/shim/runtime",
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	Name       string
	GoFiles    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

func main() {
	dir := os.Args[1]
	want := map[string]bool{}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,ImportMap,Error"}
	for _, p := range os.Args[2:] {
		abs, err := filepath.Abs(filepath.Join(dir, p))
		check(err)
		want[abs] = true
		args = append(args, "./"+p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		fatal("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var todo []*pkgInfo
	for dec := json.NewDecoder(&out); ; {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		if want[p.Dir] {
			todo = append(todo, p)
		}
	}
	for _, p := range todo {
		instrument(p, exports)
	}
}

type inst struct {
	pkg   *types.Package
	info  *types.Info
	fset  *token.FileSet
	n     int
	used  bool
	rng   map[*ast.RangeStmt]string // "map" or "chan"
	close map[*ast.CallExpr]bool
	clen  map[*ast.CallExpr]bool
	refl  map[*ast.CallExpr]string
	gos   map[*ast.GoStmt]*goInfo
}

type goInfo struct {
	inlineFun bool
	inlineArg []bool
	callOnly  bool
	noResult  bool
}

func instrument(p *pkgInfo, exports map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		check(err)
		files = append(files, af)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		GoVersion: "",
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	check(err)

	in := &inst{pkg: tp, info: info, fset: fset,
		rng: map[*ast.RangeStmt]string{}, close: map[*ast.CallExpr]bool{}, clen: map[*ast.CallExpr]bool{},
		refl: map[*ast.CallExpr]string{}, gos: map[*ast.GoStmt]*goInfo{}}
	for _, f := range files {
		in.scan(f)
	}
	fileOf := func(n ast.Node) int {
		for i, f := range files {
			if f.FileStart <= n.Pos() && n.Pos() < f.FileEnd {
				return i
			}
		}
		fatal("no file for node")
		return 0
	}
	// Find variables and initialisers for the reset function.
	var zero []string
	for _, nm := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(nm).(*types.Var); ok && nm != "_" {
			_ = v
			zero = append(zero, nm)
		}
	}
	sort.Strings(zero)
	var inits []string
	extra := make([][]ast.Decl, len(files))
	for i, ini := range info.InitOrder {
		all := true
		var lhs []ast.Expr
		for _, v := range ini.Lhs {
			if v.Name() != "_" {
				all = false
			}
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if all {
			continue
		}
		name := fmt.Sprintf("_mcVar%d", i)
		k := fileOf(ini.Rhs)
		extra[k] = append(extra[k], fn(name, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{ini.Rhs}}))
		inits = append(inits, name)
	}
	n := 0
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				fd.Name = ast.NewIdent(fmt.Sprintf("_mcInit%d", n))
				inits = append(inits, fd.Name.Name)
				n++
			}
			if fd.Name.Name == "main" && tp.Name() == "main" {
				fd.Name = ast.NewIdent("_mcMain")
			}
		}
	}
	for i, f := range files {
		in.used = false
		rewrite(reflect.ValueOf(&f.Decls).Elem(), in)
		for _, d := range extra[i] {
			// The initialiser has been rewritten where it is declared; take the new expression.
			f.Decls = append(f.Decls, d)
		}
		if extra[i] != nil {
			rewrite(reflect.ValueOf(&extra[i]).Elem(), in)
		}
		in.imports(f)
		var b bytes.Buffer
		check(format.Node(&b, fset, f))
		check(os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), b.Bytes(), 0644))
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport _mc \"verif/mc\"\n\n", tp.Name())
	fmt.Fprintf(&b, "func init() {\n")
	for _, s := range inits {
		if strings.HasPrefix(s, "_mcInit") {
			fmt.Fprintf(&b, "\t%s()\n", s)
		}
	}
	fmt.Fprintf(&b, "\t_mc.RegisterReset(func() {\n")
	for _, s := range zero {
		fmt.Fprintf(&b, "\t\t_mc.Zero(&%s)\n", s)
	}
	for _, s := range inits {
		fmt.Fprintf(&b, "\t\t%s()\n", s)
	}
	fmt.Fprintf(&b, "\t})\n}\n")
	check(os.WriteFile(filepath.Join(p.Dir, "zz_mc_reset.go"), b.Bytes(), 0644))
}

func fn(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

// scan notes, before anything is changed, what has to be known about the types.
func (in *inst) scan(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			if t := in.info.TypeOf(n.X); t != nil {
				switch t.Underlying().(type) {
				case *types.Map:
					in.rng[n] = "map"
				case *types.Chan:
					in.rng[n] = "chan"
				}
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := in.info.Uses[id].(*types.Builtin); ok {
					switch b.Name() {
					case "close":
						in.close[n] = true
					case "len":
						if _, ok := in.info.TypeOf(n.Args[0]).Underlying().(*types.Chan); ok {
							in.clen[n] = true
						}
					}
				}
			}
			if se, ok := unparen(n.Fun).(*ast.SelectorExpr); ok && (se.Sel.Name == "MapKeys" || se.Sel.Name == "MapRange") {
				if s := in.info.Selections[se]; s != nil && s.Kind() == types.MethodVal && s.Recv().String() == "reflect.Value" {
					in.refl[n] = se.Sel.Name
				}
			}
		case *ast.GoStmt:
			g := &goInfo{}
			c := n.Call
			switch fun := unparen(c.Fun).(type) {
			case *ast.FuncLit:
				g.inlineFun = true
				g.noResult = len(c.Args) == 0 && fun.Type.Results == nil
			case *ast.Ident:
				switch in.info.Uses[fun].(type) {
				case *types.Func, *types.Builtin, *types.TypeName:
					g.inlineFun = true
				}
			case *ast.SelectorExpr:
				if _, ok := in.info.Uses[fun.Sel].(*types.Func); ok && in.info.Selections[fun] == nil {
					g.inlineFun = true
				}
			case *ast.IndexExpr, *ast.IndexListExpr:
				g.inlineFun = true
			}
			for _, a := range c.Args {
				tv := in.info.Types[a]
				g.inlineArg = append(g.inlineArg, tv.Value != nil || tv.IsNil() || tv.IsType())
				if _, ok := tv.Type.(*types.Tuple); ok {
					g.callOnly = true
				}
			}
			in.gos[n] = g
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) tmp(s string) *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("_mc%s%d", s, in.n))
}

func (in *inst) mc(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("_mc"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func sel(x ast.Expr, name string) ast.Expr {
	return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// rewrite walks v (children first) and replaces expressions and statements.
func rewrite(v reflect.Value, in *inst) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rewrite(v.Index(i), in)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		rewriteNode(v.Elem(), in)
		switch v.Type() {
		case exprT:
			v.Set(reflect.ValueOf(in.expr(v.Interface().(ast.Expr))))
		case stmtT:
			v.Set(reflect.ValueOf(in.stmt(v.Interface().(ast.Stmt))))
		}
	case reflect.Ptr:
		rewriteNode(v, in)
	}
}

func rewriteNode(v reflect.Value, in *inst) {
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	switch n := v.Interface().(type) {
	case *ast.Ident, *ast.BasicLit, *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.ImportSpec:
		return
	case *ast.SelectStmt:
		// The communication clauses are handled with the whole statement; only their parts are rewritten here.
		for _, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				rewriteNode(reflect.ValueOf(s), in)
			case *ast.ExprStmt:
				rewriteNode(reflect.ValueOf(unparen(s.X)), in)
			case *ast.AssignStmt:
				rewrite(reflect.ValueOf(&s.Lhs).Elem(), in)
				rewriteNode(reflect.ValueOf(unparen(s.Rhs[0])), in)
			}
			rewrite(reflect.ValueOf(&cc.Body).Elem(), in)
		}
		return
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			in.recv2(&n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			in.recv2(&n.Values[0])
		}
	}
	e := v.Elem()
	if e.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		if !f.CanSet() {
			continue
		}
		rewrite(f, in)
	}
}

func (in *inst) recv2(e *ast.Expr) {
	if u, ok := unparen(*e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		*e = call(in.mc("Recv2"), u.X)
	}
}

func (in *inst) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(in.mc("Recv"), e.X)
		}
	case *ast.CallExpr:
		if in.close[e] {
			return call(in.mc("Close"), e.Args[0])
		}
		if in.clen[e] {
			return call(in.mc("Len"), e.Args[0])
		}
		if m := in.refl[e]; m != "" {
			return call(in.mc(m), unparen(e.Fun).(*ast.SelectorExpr).X)
		}
	}
	return e
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.ExprStmt:
		return s
	case *ast.DeferStmt:
		// A builtin call may have been replaced: DeferStmt.Call is a *CallExpr, not an Expr.
		s.Call = in.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.GoStmt:
		return in.goStmt(s)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(in.mc("Send"), s.Chan), s.Value)}
	case *ast.SelectStmt:
		return in.selectStmt(s)
	case *ast.RangeStmt:
		return in.rangeStmt(s)
	case *ast.LabeledStmt:
		return s
	}
	return s
}

func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	g := in.gos[s]
	c := in.expr(s.Call).(*ast.CallExpr)
	if g == nil {
		g = &goInfo{callOnly: true}
	}
	if g.noResult {
		return &ast.ExprStmt{X: call(in.mc("Go"), c.Fun)}
	}
	var pre []ast.Stmt
	nc := &ast.CallExpr{Fun: c.Fun, Args: append([]ast.Expr(nil), c.Args...), Ellipsis: c.Ellipsis}
	if !g.callOnly {
		if !g.inlineFun {
			t := in.tmp("F")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Fun}})
			nc.Fun = t
		}
		for i := range nc.Args {
			if i < len(g.inlineArg) && g.inlineArg[i] {
				continue
			}
			t := in.tmp("A")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{nc.Args[i]}})
			nc.Args[i] = t
		}
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	st := &ast.ExprStmt{X: call(in.mc("Go"), body)}
	if pre == nil {
		return st
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func (in *inst) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(in.mc("Park"), &ast.BasicLit{Kind: token.STRING, Value: `"select{}"`})}}}}
	}
	var lhs, rhs, args []ast.Expr
	def := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	i := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		body := cc.Body
		if cc.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
			continue
		}
		t := in.tmp("C")
		lhs = append(lhs, t)
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(in.mc("SendCase"), x.Chan), x.Value))
		case *ast.ExprStmt:
			rhs = append(rhs, call(in.mc("RecvCase"), unparen(x.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			rhs = append(rhs, call(in.mc("RecvCase"), unparen(x.Rhs[0]).(*ast.UnaryExpr).X))
			r := []ast.Expr{sel(t, "V")}
			if len(x.Lhs) == 2 {
				r = append(r, sel(t, "OK"))
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: r}}, body...)
		}
		args = append(args, call(sel(t, "Case")))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(i)}, Body: body})
		i++
	}
	if def == "false" { // keeps the statement a terminating one
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	if lhs != nil {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(in.mc("Select"), append([]ast.Expr{ast.NewIdent(def)}, args...)...)
	return sw
}

func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (in *inst) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	kind := in.rng[s]
	if kind == "" {
		return s
	}
	it := in.tmp("It")
	var decl, next []ast.Expr
	vars := []ast.Expr{s.Key, s.Value}
	fn := "MapIter"
	if kind == "chan" {
		vars = vars[:1]
		fn = "ChanIter"
	}
	for _, v := range vars {
		id, _ := v.(*ast.Ident)
		switch {
		case v == nil || id != nil && id.Name == "_":
			decl = append(decl, ast.NewIdent("_"))
			next = append(next, ast.NewIdent("nil"))
		case s.Tok == token.DEFINE:
			decl = append(decl, v)
			next = append(next, &ast.UnaryExpr{Op: token.AND, X: v})
		default:
			decl = append(decl, ast.NewIdent("_"))
			next = append(next, &ast.UnaryExpr{Op: token.AND, X: v})
		}
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: append([]ast.Expr{it}, decl...), Tok: token.DEFINE, Rhs: []ast.Expr{call(in.mc(fn), s.X)}},
		Cond: call(sel(it, "Next"), next...),
		Body: s.Body,
	}
}

func (in *inst) imports(f *ast.File) {
	names := map[string]string{"sync": "sync", "sync/atomic": "atomic", "time": "time", "os": "os", "io/ioutil": "ioutil", "net": "net",
		"crypto/tls": "tls", "crypto/rand": "rand", "math/rand": "rand", "log": "log", "runtime": "runtime", "net/http": "http"}
	var first *ast.GenDecl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		if first == nil {
			first = g
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			to := redirect[path]
			if path == "net/http" && in.pkg.Name() == "main" {
				to = "verif/shim/nethttp"
			}
			if to == "" {
				continue
			}
			is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			if is.Name == nil {
				is.Name = ast.NewIdent(names[path])
			}
			is.EndPos = 0
		}
	}
	if in.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("_mc"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc"`}}
		g := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{g}, f.Decls...)
	}
}

func check(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}
