// vinstr writes copies of the non-test Go files of the repository with a
// scheduling point before every statement, and the overlay list that uses them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	list := flag.String("list", "", "")
	flag.Parse()
	m := map[string]string{}
	n := 0
	err := filepath.Walk(*repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); strings.HasPrefix(b, ".") || b == "templates" || b == "testdata" || b == "cmd" || b == "etc" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		s, sites := instrument(path, rel)
		if sites == 0 {
			return nil
		}
		n += sites
		dst := filepath.Join(*out, "instr_"+strings.ReplaceAll(rel, "/", "_"))
		m[path] = dst
		return os.WriteFile(dst, []byte(s), 0o644)
	})
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	b, _ := json.Marshal(m)
	if err := os.WriteFile(*list, b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println(n, "points in", len(m), "files")
}

func instrument(path, rel string) (string, int) {
	src, err := os.ReadFile(path)
	if err != nil {
		return "", 0
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" {
		return "", 0
	}
	type ins struct {
		at   int
		text string
	}
	var all []ins
	add := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			p := fset.Position(s.Pos())
			all = append(all, ins{p.Offset, fmt.Sprintf("zzsched.P(\"%s:%d:%d\"); ", rel, p.Line, p.Column)})
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		if fd.Doc != nil && strings.Contains(docText(fd.Doc), "//go:nosplit") {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
	}
	// clause lists are blocks of clauses: no point may stand before a clause
	var keep []ins
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.CaseClause:
			clause[fset.Position(c.Pos()).Offset] = true
		case *ast.CommClause:
			clause[fset.Position(c.Pos()).Offset] = true
		}
		return true
	})
	seen := map[int]bool{}
	for _, x := range all {
		if !clause[x.at] && !seen[x.at] {
			seen[x.at] = true
			keep = append(keep, x)
		}
	}
	if len(keep) == 0 {
		return "", 0
	}
	keep = append(keep, ins{fset.Position(f.Name.End()).Offset, "; import zzsched \"vh/sched\""})
	sort.Slice(keep, func(i, j int) bool { return keep[i].at > keep[j].at })
	s := string(src)
	for _, x := range keep {
		s = s[:x.at] + x.text + s[x.at:]
	}
	return s, len(keep) - 1
}

func docText(g *ast.CommentGroup) (s string) {
	for _, c := range g.List {
		s += c.Text + "\n"
	}
	return
}
