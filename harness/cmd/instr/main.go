// Command instr writes schedule-instrumented copies of Go packages and an overlay file that makes the Go tool use
// them. Usage: instr OUTDIR OVERLAY.json VERIFSCHED.go.txt [PKGDIR...]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	out, overlay, sched := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	repl["/repo/sttp/verifsched/verifsched.go"] = sched
	site, fn := 0, 0
	for _, dir := range os.Args[4:] {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			type ins struct {
				off  int
				text string
			}
			var list []ins
			add := func(stmts []ast.Stmt) {
				for _, s := range stmts {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					list = append(list, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("verifsched.P(%d, %d); ", site, fn)})
					site++
				}
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.Name == "init" {
					continue
				}
				fn++
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.FuncLit:
						fn++
					case *ast.BlockStmt:
						add(x.List)
					case *ast.CaseClause:
						add(x.Body)
					case *ast.CommClause:
						add(x.Body)
					}
					return true
				})
			}
			if len(list) == 0 {
				continue
			}
			list = append(list, ins{fset.Position(af.Name.End()).Offset, "; import verifsched \"github.com/sttp/goapi/sttp/verifsched\""})
			sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
			var b strings.Builder
			pos := 0
			for _, i := range list {
				b.Write(src[pos:i.off])
				b.WriteString(i.text)
				pos = i.off
			}
			b.Write(src[pos:])
			name := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
			if err := os.WriteFile(name, []byte(b.String()), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			repl[f] = name
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(overlay, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(site)
}
