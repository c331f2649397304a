// Command instr writes instrumented copies of the non-test Go files of a source tree, and an overlay file for
// 'go build -overlay': a call to verifharness/pt.P is put before every statement, on its own line, so that line
// numbers stay as they are.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	var sites []string
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); path != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		type ins struct {
			off  int
			text string
		}
		var inss []ins
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.EmptyStmt:
					continue
				case *ast.BranchStmt:
					if s.Tok == token.FALLTHROUGH {
						continue
					}
				}
				p := fset.Position(s.Pos())
				inss = append(inss, ins{p.Offset, fmt.Sprintf("verifpt.P(%d); ", len(sites))})
				sites = append(sites, fmt.Sprintf("%s:%d", strings.TrimPrefix(path, root+"/"), p.Line))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.SwitchStmt:
				for _, c := range n.Body.List {
					ast.Inspect(c, func(ast.Node) bool { return false })
				}
			}
			return true
		})
		// the body of a switch or select is a block of clauses, nothing may be put before a clause
		drop := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CaseClause:
				drop[fset.Position(n.Pos()).Offset] = true
			case *ast.CommClause:
				drop[fset.Position(n.Pos()).Offset] = true
			}
			return true
		})
		if len(inss) == 0 {
			return nil
		}
		sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
		var sb strings.Builder
		pos := fset.Position(f.Name.End()).Offset
		sb.Write(src[:pos])
		sb.WriteString(`; import verifpt "verifharness/pt"`)
		for _, in := range inss {
			if drop[in.off] {
				continue
			}
			sb.Write(src[pos:in.off])
			sb.WriteString(in.text)
			pos = in.off
		}
		sb.Write(src[pos:])
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", len(replace)))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			return err
		}
		replace[path] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
	b, _ = json.Marshal(sites)
	os.WriteFile(filepath.Join(out, "sites.json"), b, 0o644)
	fmt.Println(len(sites))
}
