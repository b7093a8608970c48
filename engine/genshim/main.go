package main

import (
	"fmt"
	"go/types"
	"os"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func main() {
	m := map[string]string{"os": "os", "net": "net", "time": "time", "rand": "math/rand", "sync": "sync", "log": "log", "filepath": "path/filepath", "pprof": "runtime/pprof", "runtime": "runtime", "fmt": "fmt", "atomic": "sync/atomic"}
	base := os.Args[1]
	for dir, path := range m {
		own := map[string]bool{}
		fs, _ := filepath.Glob(filepath.Join(base, dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "zz_gen.go") {
				continue
			}
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						own[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.ValueSpec:
							for _, n := range s.Names {
								own[n.Name] = true
							}
						case *ast.TypeSpec:
							own[s.Name.Name] = true
						}
					}
				}
			}
		}
		cfg := &packages.Config{Mode: packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedName|packages.NeedSyntax|packages.NeedTypesInfo}
		ps, err := packages.Load(cfg, path)
		if err != nil {
			panic(err)
		}
		sc := ps[0].Types.Scope()
		var b strings.Builder
		fmt.Fprintf(&b, "// Code generated from the exported names of %s. DO NOT EDIT.\n\npackage %s\n\nimport zzreal \"%s\"\n\n", path, dir, path)
		names := sc.Names()
		sort.Strings(names)
		for _, n := range names {
			o := sc.Lookup(n)
			if !o.Exported() || own[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = zzreal.%s\n", n, n)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = zzreal.%s\n", n, n)
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				sig := o.Type().(*types.Signature)
				ref := ""
				_ = sig
				fmt.Fprintf(&b, "var %s = zzreal.%s%s\n", n, n, ref)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
			}
		}
		if err := os.WriteFile(filepath.Join(base, dir, "zz_gen.go"), []byte(b.String()), 0644); err != nil {
			panic(err)
		}
	}
}
