// instr REPO SCHEDDIR OUT : writes OUT/overlay.json, an overlay of the repository in which every statement
// is preceded by a scheduling point and package sync is replaced, and of the runtime for goroutine ids.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

const mod = "github.com/vorlif/spreak"

func main() {
	repo, sched, out := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	n := 0
	put := func(orig string, data []byte) {
		p := filepath.Join(out, fmt.Sprintf("i%d.go", n))
		n++
		check(os.WriteFile(p, data, 0o644))
		replace[orig] = p
	}
	check(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			switch d.Name() {
			case "testdata", "examples", ".git", "vendor":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if new := instrument(p, src); new != nil {
			put(p, new)
		}
		return nil
	}))
	for _, k := range []string{"verifsched", "verifsync", "verifatomic"} {
		b, err := os.ReadFile(filepath.Join(sched, k+".go.txt"))
		check(err)
		put(filepath.Join(repo, k, k+".go"), b)
	}
	rt := filepath.Join(runtime.GOROOT(), "src", "runtime", "map.go")
	if r := os.Getenv("VERIF_GOROOT"); r != "" {
		rt = filepath.Join(r, "src", "runtime", "map.go")
	}
	b, err := os.ReadFile(rt)
	check(err)
	put(rt, append(b, "\nfunc VerifGoid() uint64 { return getg().goid }\n"...))
	j, _ := json.Marshal(map[string]any{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil
	}
	type ins struct {
		at   int
		del  int
		text string
	}
	var all []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	points := 0
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, empty := s.(*ast.EmptyStmt); empty {
				continue
			}
			all = append(all, ins{off(s.Pos()), 0, "verifsched.Point();"})
			points++
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			// the clauses of a switch or select are no statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		}
		return true
	})
	for _, i := range f.Imports {
		new, short := map[string]string{`"sync"`: "verifsync", `"sync/atomic"`: "verifatomic"}[i.Path.Value], path.Base(strings.Trim(i.Path.Value, `"`))
		if new != "" {
			t := `"` + mod + "/" + new + `"`
			if i.Name == nil {
				t = short + " " + t
			}
			all = append(all, ins{off(i.Path.Pos()), len(i.Path.Value), t})
		}
	}
	if len(all) == 0 {
		return nil
	}
	if points > 0 {
		all = append(all, ins{off(f.Name.End()), 0, `; import verifsched "` + mod + `/verifsched"`})
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	var b bytes.Buffer
	last := 0
	for _, x := range all {
		b.Write(src[last:x.at])
		b.WriteString(x.text)
		last = x.at + x.del
	}
	b.Write(src[last:])
	return b.Bytes()
}
