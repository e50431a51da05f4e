// Command gendrop writes z_gen.go of a drop-in package: an alias for every exported
// name of a standard package that the drop-in does not define itself.
// usage: gendrop STDPKG DIR PKGNAME [name-to-skip ...]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"strings"
)

func main() {
	std, dir, name := os.Args[1], os.Args[2], os.Args[3]
	skip := map[string]bool{}
	for _, x := range os.Args[4:] {
		skip[x] = true
	}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "z_gen.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					skip[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						skip[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							skip[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	q := path.Base(std)
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by gendrop from %s; DO NOT EDIT.\n\npackage %s\n\nimport %q\n\n", std, name, std)
	n := 0
	for _, id := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(id)
		if !o.Exported() || skip[id] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", id, q, id)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", id, q, id)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", id, q, id)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", id, q, id)
		}
		n++
	}
	if n == 0 {
		os.Remove(filepath.Join(dir, "z_gen.go"))
		return
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "z_gen.go"), src, 0644); err != nil {
		panic(err)
	}
}
