// Command instr rewrites the non-test Go files of a package so that every
// statement is preceded by a scheduling point. Usage:
//
//	instr OUTDIR DEPDIR DIR...
//
// Each DIR's files go to OUTDIR/<n>/ with ids from n*100000, DEPDIR's (may be
// "-") to OUTDIR/dep/ with ids from 5000000. OUTDIR/overlay.json maps the DIRs.
//
// It prints "unsupported: ..." and exits 3 when the package starts goroutines
// or uses channels (the scheduler would not know those threads).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off  int
	text string
}

func main() {
	out := os.Args[1]
	replace := map[string]string{}
	if os.Args[2] != "-" {
		pkg(os.Args[2], filepath.Join(out, "dep"), 5000000, nil)
	}
	for n, dir := range os.Args[3:] {
		pkg(dir, filepath.Join(out, strconv.Itoa(n)), 1+n*100000, replace)
	}
	j, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}

func pkg(dir, dst string, id int, replace map[string]string) {
	check(os.MkdirAll(dst, 0o755))
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		res, next := rewrite(f, src, id)
		id = next
		to := filepath.Join(dst, filepath.Base(f))
		check(os.WriteFile(to, res, 0o644))
		if replace != nil {
			replace[f] = to
		}
	}
}

func rewrite(name string, src []byte, id int) ([]byte, int) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var list []ins
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{off(s.Pos()), fmt.Sprintf("sched_.Y(%d);", id)})
			id++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause, *ast.SelectStmt, *ast.GoStmt, *ast.SendStmt, *ast.ChanType:
			fmt.Printf("unsupported: %s: %T\n", fs.Position(n.Pos()), x)
			os.Exit(3)
		}
		return true
	})
	// block lists contain case clauses, which are not statements to precede
	var keep []ins
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CaseClause); ok {
			bad[off(c.Pos())] = true
		}
		return true
	})
	for _, i := range list {
		if !bad[i.off] {
			keep = append(keep, i)
		}
	}
	if len(keep) > 0 {
		keep = append(keep, ins{off(f.Name.End()), `; import sched_ "verif/mc/sched"`})
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"verif/mc/sched/ssync"`
			if im.Name == nil {
				t = "sync " + t
			}
			keep = append(keep, ins{off(im.Path.Pos()), t + " //"})
		}
	}
	sort.SliceStable(keep, func(i, j int) bool { return keep[i].off > keep[j].off })
	s := string(src)
	for _, i := range keep {
		s = s[:i.off] + i.text + s[i.off:]
	}
	return []byte(s), id
}

func check(err error) {
	if err != nil {
		fmt.Println("instr:", err)
		os.Exit(4)
	}
}
