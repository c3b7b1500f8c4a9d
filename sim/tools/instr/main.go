// Command instr inserts scheduling points before statements of Go source files.
//
// It only inserts text ("simsync.SimPoint(N);") at statement starts, so line
// numbers and behaviour outside a simulation are unchanged.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off int
	txt string
}

func main() {
	// instr OUTDIR ROOT DIR...
	out, root := os.Args[1], os.Args[2]
	repl := map[string]string{}
	sites := []string{}
	n := 0
	for _, dir := range os.Args[3:] {
		ents, err := os.ReadDir(filepath.Join(root, dir))
		if err != nil {
			continue
		}
		for _, e := range ents {
			name := e.Name()
			if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
				continue
			}
			p := filepath.Join(root, dir, name)
			src, err := os.ReadFile(p)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				// leave it to the compiler to complain
				continue
			}
			skip := false
			for _, c := range f.Comments {
				if c.Pos() < f.Package && strings.Contains(c.Text(), "") {
					for _, l := range c.List {
						if strings.HasPrefix(l.Text, "//go:build") && strings.Contains(l.Text, "ignore") {
							skip = true
						}
					}
				}
			}
			if skip || f.Name.Name == "main" {
				continue
			}
			var xs []ins
			add := func(list []ast.Stmt) {
				for _, s := range list {
					switch t := s.(type) {
					case *ast.EmptyStmt:
						continue
					case *ast.LabeledStmt:
						_ = t
					}
					pos := fset.Position(s.Pos())
					sites = append(sites, fmt.Sprintf("%s:%d", filepath.Join(dir, name), pos.Line))
					xs = append(xs, ins{pos.Offset, fmt.Sprintf("simsync.SimPoint(%d);", n)})
					n++
				}
			}
			ast.Inspect(f, func(nd ast.Node) bool {
				switch b := nd.(type) {
				case *ast.SwitchStmt:
					// the body holds only case clauses
					for _, c := range b.Body.List {
						add(c.(*ast.CaseClause).Body)
					}
				case *ast.TypeSwitchStmt:
					for _, c := range b.Body.List {
						add(c.(*ast.CaseClause).Body)
					}
				case *ast.SelectStmt:
					for _, c := range b.Body.List {
						add(c.(*ast.CommClause).Body)
					}
				case *ast.BlockStmt:
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(b.List)
				}
				return true
			})
			if len(xs) == 0 {
				continue
			}
			xs = append(xs, ins{fset.Position(f.Name.End()).Offset, "; import simsync \"sync\""})
			sort.SliceStable(xs, func(i, j int) bool { return xs[i].off < xs[j].off })
			var buf bytes.Buffer
			last := 0
			for _, x := range xs {
				buf.Write(src[last:x.off])
				buf.WriteString(x.txt)
				last = x.off
			}
			buf.Write(src[last:])
			op := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, name), "/", "__"))
			if err := os.WriteFile(op, buf.Bytes(), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			repl[p] = op
		}
	}
	b, _ := json.Marshal(map[string]any{"replace": repl, "sites": sites})
	os.Stdout.Write(b)
}
