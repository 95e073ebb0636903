// Command genshim writes zz_alias.go into a shim package: everything that the real
// package exports and the shim does not declare itself is passed through.
// Usage: genshim <real import path> <shim dir>
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
)

func main() {
	real, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return fi.Name() != "zz_alias.go" }, 0)
	check(err)
	have := map[string]bool{}
	name := ""
	for n, p := range pkgs {
		name = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(real)
	check(err)
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, real)
	var skipped []string
	names := pkg.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, nm := range names {
		o := pkg.Scope().Lookup(nm)
		if !o.Exported() || have[nm] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", nm, nm)
			n++
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
			n++
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				skipped = append(skipped, nm)
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", nm, nm)
			n++
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				skipped = append(skipped, nm)
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", nm, nm)
			n++
		}
	}
	if n == 0 {
		fmt.Fprintf(&b, "var _ = real.X\n")
		b.Reset()
		fmt.Fprintf(&b, "package %s\n", name)
	}
	for _, s := range skipped {
		fmt.Fprintln(os.Stderr, "genshim: generic, not passed through:", real, s)
	}
	out, err := format.Source(b.Bytes())
	check(err)
	check(os.WriteFile(dir+"/zz_alias.go", out, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
