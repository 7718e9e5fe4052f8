// yieldgen DIR OUT writes to OUT an overlay of the non-test Go files of the
// package in DIR in which every statement is preceded by a call of a
// scheduling hook, and OUT/overlay.json for go build -overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		panic(err)
	}
	repl := map[string]string{}
	pkg := ""
	site := 0
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		pkg = a.Name.Name
		at := map[int]bool{}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at[fs.Position(s.Pos()).Offset] = true
				}
			}
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select is a list of clauses
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		offs := []int{}
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		b := strings.Builder{}
		last := 0
		for _, o := range offs {
			b.Write(src[last:o])
			site++
			fmt.Fprintf(&b, "verifYieldHook(%d); ", site)
			last = o
		}
		b.Write(src[last:])
		dst := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
		repl[f] = dst
	}
	hook := filepath.Join(out, "zz_verif_yield.go")
	code := fmt.Sprintf("package %s\n\n// VerifYield is called before every statement.\nvar VerifYield func(site int)\n\nfunc verifYieldHook(site int) {\n\tif VerifYield != nil {\n\t\tVerifYield(site)\n\t}\n}\n", pkg)
	if err := os.WriteFile(hook, []byte(code), 0o644); err != nil {
		panic(err)
	}
	repl[filepath.Join(dir, "zz_verif_yield.go")] = hook
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		panic(err)
	}
}
