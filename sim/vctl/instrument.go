package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

type insertion struct {
	off  int
	del  int
	text string
}

// instrument inserts a yield point before every statement. Line numbers do not change.
func instrument(name string, src []byte) (out []byte, points int, hasGo bool, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, false, err
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	y := func(p token.Pos) {
		ins = append(ins, insertion{off: off(p), text: "simrtX.Y();"})
		points++
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for _, s := range list {
			switch s := s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			case *ast.LabeledStmt:
				y(s.Pos())
				var inner ast.Stmt = s.Stmt
				for {
					if l, ok := inner.(*ast.LabeledStmt); ok {
						inner = l.Stmt
						continue
					}
					break
				}
				switch inner.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt:
				default:
					y(inner.Pos())
				}
			default:
				y(s.Pos())
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				y(n.Body.Rbrace)
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				y(n.Body.Rbrace)
			}
		case *ast.GoStmt:
			hasGo = true
		}
		return true
	})
	for _, imp := range f.Imports {
		if imp.Path.Value == `"sync"` {
			text := `"asn1sim/simsync"`
			if imp.Name == nil {
				text = "sync " + text
			}
			ins = append(ins, insertion{off: off(imp.Path.Pos()), del: len(imp.Path.Value), text: text})
		}
	}
	if points > 0 {
		ins = append(ins, insertion{off: off(f.Name.End()), text: `;import simrtX "asn1sim/simrt"`})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b bytes.Buffer
	last := 0
	for _, i := range ins {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off + i.del
	}
	b.Write(src[last:])
	return b.Bytes(), points, hasGo, nil
}

type treeInfo struct {
	Files  int
	Points int
	HasGo  bool
	Mode   string
}

// copyTree copies the non-test Go sources of repo to dst, instrumented unless plain.
func copyTree(repo, dst string, replace map[string]string, plain bool) (*treeInfo, error) {
	info := &treeInfo{Mode: "instrumented"}
	if plain {
		info.Mode = "plain"
	}
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			base := fi.Name()
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "examples" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, "_generated.go") {
			return nil
		}
		files = append(files, rel)
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, rel := range files {
		from := filepath.Join(repo, rel)
		if r, ok := replace[rel]; ok {
			from = r
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		out := src
		if !plain {
			var n int
			var g bool
			out, n, g, err = instrument(rel, src)
			if err != nil {
				return nil, err
			}
			info.Points += n
			info.HasGo = info.HasGo || g
		}
		if strings.HasPrefix(rel, "cmd/") && bytes.Contains(src, []byte("package main")) {
			out = mainClause.ReplaceAll(out, []byte(`package main;import _ "asn1sim/boot"`))
		}
		to := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(to, out, 0o644); err != nil {
			return nil, err
		}
		info.Files++
	}
	if info.Files == 0 {
		return nil, fmt.Errorf("no Go sources in %s", repo)
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := "module github.com/chemikadze/asn1go\n\n"
	for _, l := range strings.Split(string(gomod), "\n") {
		if strings.HasPrefix(l, "go ") {
			mod += l + "\n"
		}
	}
	mod += "\nrequire asn1sim v0.0.0\n"
	return info, os.WriteFile(filepath.Join(dst, "go.mod"), []byte(mod), 0o644)
}
