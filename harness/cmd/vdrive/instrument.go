package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { commands["instrument"] = instrumentMain }

// instrument REPO DIR OUT PACKAGE... writes copies of the packages' sources with a
// yield before every statement to DIR, and an overlay file for the go command to OUT.
func instrumentMain(args []string) error {
	repo, dir, out := args[0], args[1], args[2]
	replace := map[string]string{}
	hook := filepath.Join(dir, "xtyield.go")
	spawns := false
	replace[filepath.Join(repo, "netx/xtyield/xtyield.go")] = hook
	n := 0
	one := func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		src, err = instrument(src, &spawns)
		if err != nil {
			return err
		}
		n++
		q := filepath.Join(dir, fmt.Sprintf("%d-%s", n, filepath.Base(p)))
		replace[p] = q
		return os.WriteFile(q, src, 0o644)
	}
	for _, pkg := range args[3:] {
		if dir, ok := strings.CutSuffix(pkg, "/..."); ok {
			if err := filepath.Walk(filepath.Join(repo, dir), one); err != nil {
				return err
			}
			continue
		}
		files, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range files {
			fi, err := os.Stat(f)
			if err := one(f, fi, err); err != nil {
				return err
			}
		}
	}
	hook0 := fmt.Sprintf("package xtyield\n\nvar Yield = func() {}\n\n// the instrumented code may start goroutines\nconst Spawns = %t\n", spawns)
	if err := os.WriteFile(hook, []byte(hook0), 0o644); err != nil {
		return err
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o644)
}

func instrument(src []byte, spawns *bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); !ok {
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			*spawns = true
		case *ast.Ident:
			if strings.Contains(n.Name, "AfterFunc") {
				*spawns = true
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// the body holds clauses, handled below
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, nil
	}
	sort.Ints(at)
	var b []byte
	head := fset.Position(f.Name.End()).Offset
	b = append(b, src[:head]...)
	b = append(b, "; import \"github.com/renthraysk/xtorm/netx/xtyield\""...)
	prev := head
	for _, o := range at {
		b = append(b, src[prev:o]...)
		b = append(b, "xtyield.Yield(); "...)
		prev = o
	}
	return append(b, src[prev:]...), nil
}
