// stepgen writes a build overlay in which the library's own packages count their steps in verif/vstep.
// Usage: stepgen REPO OUTDIR.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	text string
}

// pure reports whether evaluating e a second time does nothing but yield the same slice.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case nil:
		return true
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.SliceExpr:
		return pure(e.X) && pure(e.Low) && pure(e.High) && e.Max == nil
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	}
	return false
}

func instrument(path string) ([]byte, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var eds []edit
	n := 0
	block := func(b *ast.BlockStmt) {
		if b != nil {
			eds = append(eds, edit{off(b.Lbrace) + 1, " verifstep.N++; "})
			n++
		}
	}
	ast.Inspect(f, func(node ast.Node) bool {
		switch x := node.(type) {
		case *ast.FuncDecl:
			block(x.Body)
		case *ast.FuncLit:
			block(x.Body)
		case *ast.ForStmt:
			block(x.Body)
		case *ast.RangeStmt:
			block(x.Body)
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			switch {
			case id.Name == "copy" && len(x.Args) == 2:
				eds = append(eds, edit{off(x.Pos()), "verifstep.Copy("}, edit{off(x.End()), ")"})
			case id.Name == "append" && x.Ellipsis.IsValid() && len(x.Args) == 2 && pure(x.Args[1]):
				a := x.Args[1]
				eds = append(eds, edit{off(x.Pos()), "verifstep.App("}, edit{off(x.End()), ", len(" + string(src[off(a.Pos()):off(a.End())]) + "))"})
			}
		}
		return true
	})
	if n == 0 {
		return nil, nil
	}
	eds = append(eds, edit{off(f.Name.End()), `; import verifstep "verif/vstep"`})
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var out []byte
	at := 0
	for _, e := range eds {
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.off
	}
	return append(out, src[at:]...), nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	rep := map[string]string{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "examples" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := instrument(p)
		if err != nil || b == nil {
			return err
		}
		q := filepath.Join(out, fmt.Sprintf("st%d_%s", len(rep), filepath.Base(p)))
		rep[p] = q
		return os.WriteFile(q, b, 0o644)
	})
	if err == nil {
		b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
		err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
