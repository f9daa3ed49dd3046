// genshim writes an alias file re-exporting a standard package, except for the names
// that the replacement package defines itself.
//
//	genshim os ../sim/sos
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	path, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	own := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if filepath.Base(f) == "alias.go" {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	std := pkg.Name()
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by tools/genshim; DO NOT EDIT.\n\npackage s%s\n\nimport %s %q\n\n", std, std, path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", n, std, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, std, n)
		case *types.TypeName:
			fmt.Fprintf(&b, "type %s = %s.%s\n", n, std, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, std, n)
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "alias.go"), []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
}
