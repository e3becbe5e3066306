// instr copies the non-test Go sources of a module into a scratch directory, replacing package
// sync by axvsync and putting a scheduling point before every statement.
//
//	instr [-plain] SRC DST VSYNC
//
// With -plain the sources are copied as they are (axvsync is still added, unused).
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const shimDir = "internal/axvsync"

func main() {
	plain := flag.Bool("plain", false, "")
	flag.Parse()
	if flag.NArg() != 3 {
		die(fmt.Errorf("usage: instr [-plain] SRC DST VSYNC"))
	}
	src, dst, vs := flag.Arg(0), flag.Arg(1), flag.Arg(2)
	mod := ""
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			mod = f[1]
		}
	}
	if mod == "" {
		die(fmt.Errorf("no module line in go.mod"))
	}
	die(filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if info.IsDir() {
			if n := info.Name(); rel != "." && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		isGo := strings.HasSuffix(p, ".go")
		if !(isGo && !strings.HasSuffix(p, "_test.go")) && rel != "go.mod" && rel != "go.sum" {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if isGo && !*plain {
			data, err = rewrite(p, data, mod+"/"+shimDir)
			if err != nil {
				return err
			}
		}
		return write(filepath.Join(dst, rel), data)
	}))
	ents, err := os.ReadDir(vs)
	die(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			data, err := os.ReadFile(filepath.Join(vs, e.Name()))
			die(err)
			die(write(filepath.Join(dst, shimDir, e.Name()), data))
		}
	}
	// internal packages are importable from the module only: re-export for the harness.
	die(write(filepath.Join(dst, "axvctl", "ctl.go"), []byte(fmt.Sprintf(`package axvctl

import "%s/%s"

func Configure(m int, seed uint64, spinBudget int64, spin func()) { axvsync.Configure(m, seed, spinBudget, spin) }
func Exhaust() { axvsync.Exhaust() }
func Used() int64 { return axvsync.Used() }
func P() { axvsync.P() }
`, mod, shimDir))))
}

type ins struct {
	off, end int // replace [off,end)
	text     string
}

func rewrite(path string, src []byte, shim string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []ins
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			t := strconv.Quote(shim)
			if im.Name == nil {
				t = "sync " + t
			}
			edits = append(edits, ins{off(im.Path.Pos()), off(im.Path.End()), t})
		}
	}
	points := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, ins{off(s.Pos()), off(s.Pos()), "axvp__.P();"})
			points++
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		case *ast.BlockStmt:
			if !skip[x] {
				list(x.List)
			}
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if points > 0 {
		e := off(f.Name.End())
		edits = append(edits, ins{e, e, "; import axvp__ " + strconv.Quote(shim)})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.end
	}
	return append(out, src[last:]...), nil
}

func write(p string, data []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, data, 0o644)
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
