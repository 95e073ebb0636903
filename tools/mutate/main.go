// Command mutate lists small changes of Go files: one JSON object per line with file, offset, length, replacement.
// It is a development tool: with sweep.py it looks for changes of behaviour that no check notices.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	Off, Len int
	New      string
}

type mutant struct {
	File  string
	Line  int
	What  string
	Edits []edit
}

var (
	fset *token.FileSet
	src  []byte
	file string
	enc  = json.NewEncoder(os.Stdout)
	seen = map[string]bool{}
	skip = map[ast.Node]bool{}
)

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[off(n.Pos()):off(n.End())])
}
func out(n ast.Node, what string, es ...edit) {
	k := fmt.Sprint(es)
	if seen[k] {
		return
	}
	seen[k] = true
	enc.Encode(mutant{file, fset.Position(n.Pos()).Line, what, es})
}
func repl(n ast.Node, s string) edit { return edit{off(n.Pos()), off(n.End()) - off(n.Pos()), s} }

func main() {
	for _, f := range os.Args[1:] {
		file = f
		fset = token.NewFileSet()
		src, _ = os.ReadFile(f)
		seen = map[string]bool{}
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		ast.Inspect(a, visit)
	}
}

func block(list []ast.Stmt) {
	for i, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			out(s, "delete "+text(s), repl(s, ""))
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				out(s, "delete "+text(s), repl(s, ""))
			}
		case *ast.IfStmt:
			if s.Else == nil {
				out(s, "delete if "+text(s.Cond), repl(s, ""))
			}
		case *ast.ReturnStmt:
			for _, r := range s.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					out(r, "return nil for err", repl(r, "nil"))
				}
			}
		}
		if i+1 < len(list) {
			t := list[i+1]
			simple := func(s ast.Stmt) bool {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
					return true
				case *ast.AssignStmt:
					return s.Tok != token.DEFINE
				}
				return false
			}
			if simple(s) && (simple(t) || isIf(t)) || isIf(s) && simple(t) {
				out(s, "swap "+short(text(s))+" / "+short(text(t)), edit{off(s.Pos()), off(t.End()) - off(s.Pos()), text(t) + "\n" + text(s)})
			}
		}
	}
}

func isIf(s ast.Stmt) bool { _, ok := s.(*ast.IfStmt); return ok }
func short(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

func visit(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body != nil {
			locks(n.Body, n)
		}
	case *ast.FuncLit:
		locks(n.Body, n)
	case *ast.BlockStmt:
		block(n.List)
	case *ast.CaseClause:
		block(n.Body)
		if len(n.List) > 0 {
			out(n, "empty case "+short(text(n)), func() []edit {
				if len(n.Body) == 0 {
					return nil
				}
				a, b := off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End())
				return []edit{{a, b - a, ""}}
			}()...)
		}
	case *ast.CommClause:
		block(n.Body)
	case *ast.IfStmt:
		c := text(n.Cond)
		out(n.Cond, "never "+c, repl(n.Cond, "("+c+") && false"))
		out(n.Cond, "always "+c, repl(n.Cond, "("+c+") || true"))
	case *ast.BinaryExpr:
		alt := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		}[n.Op]
		for _, s := range alt {
			out(n, n.Op.String()+" -> "+s+" in "+short(text(n)), edit{off(n.OpPos), len(n.Op.String()), s})
		}
		if n.Op == token.LAND || n.Op == token.LOR {
			out(n, "left only of "+short(text(n)), repl(n, text(n.X)))
			out(n, "right only of "+short(text(n)), repl(n, text(n.Y)))
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			out(n, "drop ! of "+short(text(n)), repl(n, text(n.X)))
		}
	case *ast.Field:
		if n.Tag != nil {
			skip[n.Tag] = true
		}
	case *ast.ImportSpec:
		return false
	case *ast.BasicLit:
		if skip[n] {
			return true
		}
		if n.Kind == token.INT {
			if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
				out(n, fmt.Sprint(n.Value, " -> ", v+1), repl(n, fmt.Sprint(v+1)))
				if v > 0 {
					out(n, fmt.Sprint(n.Value, " -> ", v-1), repl(n, fmt.Sprint(v-1)))
				}
			}
		}
		if n.Kind == token.STRING && len(n.Value) > 2 {
			out(n, "empty string "+short(n.Value), repl(n, `""`))
		}
	case *ast.BranchStmt:
		switch n.Tok {
		case token.BREAK:
			out(n, "break -> continue", edit{off(n.Pos()), 5, "continue"})
		case token.CONTINUE:
			out(n, "continue -> break", edit{off(n.Pos()), 8, "break"})
		}
	case *ast.CallExpr:
		if t := text(n.Fun); strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "errors.") || t == "fmt.Errorf" || t == "panic" {
			ast.Inspect(n, func(m ast.Node) bool {
				if l, ok := m.(*ast.BasicLit); ok {
					skip[l] = true
				}
				return true
			})
		}
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
			out(n, "append dropped "+short(text(n)), repl(n, text(n.Args[0])))
		}
	case *ast.Ident:
		if n.Name == "true" {
			out(n, "true -> false", repl(n, "false"))
		}
		if n.Name == "false" {
			out(n, "false -> true", repl(n, "true"))
		}
	case *ast.KeyValueExpr:
		if _, ok := n.Key.(*ast.Ident); ok {
			e := off(n.End())
			if e < len(src) && src[e] == ',' {
				out(n, "no field "+short(text(n)), edit{off(n.Pos()), e + 1 - off(n.Pos()), ""})
			}
		}
	}
	return true
}

// locks drops all lock operations of a function, and weakens them.
func locks(b *ast.BlockStmt, n ast.Node) {
	var del, weak []edit
	ast.Inspect(b, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok && m != n {
			return false
		}
		var c *ast.CallExpr
		var st ast.Node
		switch m := m.(type) {
		case *ast.ExprStmt:
			c, _ = m.X.(*ast.CallExpr)
			st = m
		case *ast.DeferStmt:
			c = m.Call
			st = m
		}
		if c == nil {
			return true
		}
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			switch s.Sel.Name {
			case "Lock", "Unlock":
				weak = append(weak, repl(s.Sel, "R"+s.Sel.Name))
				fallthrough
			case "RLock", "RUnlock":
				del = append(del, repl(st, ""))
			}
		}
		return true
	})
	if len(del) > 0 {
		out(b, "no locks", del...)
	}
	if len(weak) > 0 {
		out(b, "read locks", weak...)
	}
}
