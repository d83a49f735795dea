package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Site is a yield point inserted in the code under test.
type Site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
	Sync bool   `json:"sync"`
}

// instrument writes copies of the non-test files of the given package directories with a call before every
// statement, and the overlay file that substitutes them. Nothing in repo is touched.
func instrument(repo string, dirs []string, outDir string) (overlay string, sites []Site, err error) {
	replace := map[string]string{}
	for _, dir := range dirs {
		files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		if err != nil {
			return "", nil, err
		}
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				return "", nil, err
			}
			out, err := instrumentFile(repo, f, string(src), &sites)
			if err != nil {
				return "", nil, err
			}
			dst := filepath.Join(outDir, strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, []byte(out), 0o644); err != nil {
				return "", nil, err
			}
			replace[f] = dst
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	overlay = filepath.Join(outDir, "overlay.json")
	return overlay, sites, os.WriteFile(overlay, js, 0o644)
}

func instrumentFile(repo, path, src string, sites *[]Site) (string, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	type ins struct {
		off  int
		text string
	}
	var inserts []ins
	rel, _ := filepath.Rel(repo, path)
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		add := func(s ast.Stmt) {
			if _, ok := s.(*ast.EmptyStmt); ok {
				return
			}
			p := fset.Position(s.Pos())
			id := len(*sites)
			*sites = append(*sites, Site{ID: id, Pos: fmt.Sprintf("%s:%d", rel, p.Line), Func: name, Sync: usesSync(s)})
			inserts = append(inserts, ins{p.Offset, fmt.Sprintf("verifyield.Y(%d); ", id)})
		}
		skip := map[*ast.BlockStmt]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.SwitchStmt:
				skip[b.Body] = true
			case *ast.TypeSwitchStmt:
				skip[b.Body] = true
			case *ast.SelectStmt:
				skip[b.Body] = true
			case *ast.BlockStmt:
				if !skip[b] {
					for _, s := range b.List {
						add(s)
					}
				}
			case *ast.CaseClause:
				for _, s := range b.Body {
					add(s)
				}
			case *ast.CommClause:
				for _, s := range b.Body {
					add(s)
				}
			}
			return true
		})
	}
	if len(inserts) > 0 {
		inserts = append(inserts, ins{fset.Position(file.Name.End()).Offset, `; import verifyield "gevulotverif/yield"`})
	}
	sort.SliceStable(inserts, func(i, j int) bool { return inserts[i].off < inserts[j].off })
	var b strings.Builder
	last := 0
	for _, i := range inserts {
		b.WriteString(src[last:i.off])
		b.WriteString(i.text)
		last = i.off
	}
	b.WriteString(src[last:])
	return b.String(), nil
}

// usesSync tells whether the statement itself communicates or calls something (used to favour such points).
func usesSync(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt, *ast.DeferStmt, *ast.ExprStmt:
		return true
	case *ast.BlockStmt:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch e := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if e.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}
