package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// bigFileOverlay replaces huge package-level composite literals (debug data)
// by nil, so that they need not be type-checked and built.
func bigFileOverlay(repo string) (map[string][]byte, error) {
	over := map[string][]byte{}
	err := filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if d.Name() == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fi, err := d.Info()
		if err != nil || fi.Size() < 200_000 {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		type cut struct{ a, b int }
		var cuts []cut
		for _, dcl := range f.Decls {
			g, ok := dcl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, v := range vs.Values {
					cl, ok := v.(*ast.CompositeLit)
					if !ok || len(cl.Elts) < 5000 {
						continue
					}
					if _, isArr := cl.Type.(*ast.ArrayType); !isArr {
						continue
					}
					cuts = append(cuts, cut{fset.Position(cl.Lbrace).Offset + 1, fset.Position(cl.Rbrace).Offset})
				}
			}
		}
		if len(cuts) == 0 {
			return nil
		}
		var out []byte
		pos := 0
		for _, c := range cuts {
			out = append(out, src[pos:c.a]...)
			pos = c.b
		}
		out = append(out, src[pos:]...)
		over[p] = out
		return nil
	})
	return over, err
}
