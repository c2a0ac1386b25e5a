// schedgen writes a build overlay in which the library's own packages use verif/vsync instead of sync.
// Usage: schedgen REPO OUTDIR; prints the mode: "sched", or "noise" when the code uses blocking operations that the
// controlled scheduler does not know (channels, atomics, timers, goroutines started from named functions).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
}

type file struct {
	path    string
	src     []byte
	sync    []edit // import replacement
	gos     []edit // goroutine announcements
	pkgEnd  int
	unknown bool
}

func scan(path string) (*file, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	r := &file{path: path, src: src, pkgEnd: off(f.Name.End())}
	risky := map[string]bool{} // local names of time and runtime
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch {
		case p == "sync":
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			r.sync = append(r.sync, edit{off(im.Path.Pos()), len(im.Path.Value), name + strconv.Quote("verif/vsync")})
		case p == "time", p == "runtime":
			name := p
			if im.Name != nil {
				name = im.Name.Name
			}
			if name == "." {
				r.unknown = true
			}
			risky[name] = true
		case p == "sync/atomic", p == "context", p == "iter", p == "C", strings.HasPrefix(p, "golang.org/x/sync"):
			r.unknown = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
			r.unknown = true
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok && risky[id.Name] {
				switch n.Sel.Name {
				case "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Gosched", "Goexit", "LockOSThread", "SetFinalizer", "AddCleanup":
					r.unknown = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				r.unknown = true
			}
		case *ast.LabeledStmt:
			if _, ok := n.Stmt.(*ast.GoStmt); ok {
				r.unknown = true
			}
		case *ast.GoStmt:
			lit, ok := n.Call.Fun.(*ast.FuncLit)
			if !ok {
				r.unknown = true
				return true
			}
			r.gos = append(r.gos, edit{off(n.Pos()), 0, "vsyncx.Spawn(); "},
				edit{off(lit.Body.Lbrace) + 1, 0, " defer vsyncx.Exit(vsyncx.Enter()); "},
				edit{off(n.End()), 0, "; vsyncx.Spawned()"})
		}
		return true
	})
	return r, nil
}

func (f *file) apply(eds []edit) []byte {
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var out []byte
	at := 0
	for _, e := range eds {
		out = append(out, f.src[at:e.off]...)
		out = append(out, e.text...)
		at = e.off + e.del
	}
	return append(out, f.src[at:]...)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	var files []*file
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "examples" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := scan(p)
		if err != nil {
			return err
		}
		files = append(files, f)
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	mode := "sched"
	for _, f := range files {
		if f.unknown {
			mode = "noise"
		}
	}
	rep := map[string]string{}
	for i, f := range files {
		eds := append([]edit{}, f.sync...)
		if mode == "sched" && len(f.gos) > 0 {
			eds = append(eds, f.gos...)
			eds = append(eds, edit{f.pkgEnd, 0, `; import vsyncx "verif/vsync"`})
		}
		if len(eds) == 0 {
			continue
		}
		p := filepath.Join(out, fmt.Sprintf("ov%d_%s", i, filepath.Base(f.path)))
		if err := os.WriteFile(p, f.apply(eds), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		rep[f.path] = p
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(mode)
}
