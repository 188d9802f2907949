package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vsyncPath = "github.com/pojntfx/stfs/verif/vsync"

// instrument writes versions of the sources below repo which use the controlled scheduler's locks and announce
// their goroutines to it, and an overlay for the compiler.
func instrument(repo, dir string) error {
	over := map[string]string{}
	n := 0
	for _, top := range []string{"pkg", "internal"} {
		err := filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if p == filepath.Join(repo, "internal", "db") { // generated; nothing is called with its locks held
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out, changed, err := rewrite(p, src)
			if err != nil {
				return err
			}
			if changed {
				n++
				q := filepath.Join(dir, fmt.Sprintf("%d_%s", n, filepath.Base(p)))
				if err := os.WriteFile(q, out, 0o644); err != nil {
					return err
				}
				over[p] = q
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	b, err := json.Marshal(map[string]interface{}{"Replace": over})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644)
}

func rewrite(name string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		at, end int
		text    string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"` + vsyncPath + `"`
			if im.Name == nil {
				t = "sync " + t
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), t})
		}
	}
	gos := 0
	mark := func(list []ast.Stmt) {
		for _, s := range list {
			if g, is := s.(*ast.GoStmt); is {
				if lit, is := g.Call.Fun.(*ast.FuncLit); is {
					gos++
					h := fmt.Sprintf("vsyncH%d", gos)
					edits = append(edits, edit{off(g.Pos()), off(g.Pos()), h + " := vsync_.Spawn(); "},
						edit{off(lit.Body.Lbrace) + 1, off(lit.Body.Lbrace) + 1, " vsync_.Enter(" + h + "); defer vsync_.Exit(" + h + "); "})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			mark(b.List)
		case *ast.CaseClause:
			mark(b.Body)
		case *ast.CommClause:
			mark(b.Body)
		}
		return true
	})
	if gos > 0 {
		edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import vsync_ "` + vsyncPath + `"`})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out strings.Builder
	out.WriteString("//line " + name + ":1\n")
	at := 0
	for _, e := range edits {
		out.Write(src[at:e.at])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return []byte(out.String()), true, nil
}
