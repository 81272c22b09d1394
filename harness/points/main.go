// Command points copies the Go files of a package with a call to yield.Point
// before every statement.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strings"
)

// usage: points REPO OUTDIR DIR... ; prints overlay entries
func main() {
	repo, out := os.Args[1], os.Args[2]
	for _, d := range os.Args[3:] {
		files, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fatal(err)
			}
			set := token.NewFileSet()
			file, err := parser.ParseFile(set, f, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			var at []int
			list := func(l []ast.Stmt) {
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
					default:
						at = append(at, set.PositionFor(s.Pos(), false).Offset)
					}
				}
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
			if len(at) == 0 {
				continue
			}
			slices.Sort(at)
			at = slices.Compact(at)
			pkg := set.PositionFor(file.Name.End(), false).Offset
			var b strings.Builder
			b.Write(src[:pkg])
			b.WriteString(`; import zzyield "github.com/mearaj/bips/zzverif/yield"`)
			from := pkg
			for _, i := range at {
				b.Write(src[from:i])
				b.WriteString("zzyield.Point(); ")
				from = i
			}
			b.Write(src[from:])
			to := filepath.Join(out, strings.ReplaceAll(filepath.Join(d, filepath.Base(f)), "/", "_"))
			if err := os.WriteFile(to, []byte(b.String()), 0o644); err != nil {
				fatal(err)
			}
			fmt.Printf(",\n%q: %q", f, to)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
