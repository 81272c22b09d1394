// mutate lists single-edit mutants of Go files as JSON lines:
// {"file","off","end","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	Off, End int
	New      string
	What     string
	Line     int
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, n, what string) {
			enc.Encode(mutant{f, pos(a), pos(b), n, what, fset.Position(a).Line})
		}
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		ast.Inspect(af, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.GenDecl:
				if e.Tok == token.IMPORT {
					return false
				}
			case *ast.CompositeLit:
				if len(e.Elts) > 64 {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swaps[e.Op] {
					emit(e.OpPos, e.OpPos+token.Pos(len(e.Op.String())), o, e.Op.String()+" -> "+o)
				}
				if e.Op == token.LAND || e.Op == token.LOR {
					emit(e.Pos(), e.End(), "("+text(e.X)+")", "drop right operand")
					emit(e.Pos(), e.End(), "("+text(e.Y)+")", "drop left operand")
				}
			case *ast.BasicLit:
				if e.Kind == token.INT {
					v, ok := new(big.Int).SetString(strings.ReplaceAll(e.Value, "_", ""), 0)
					if ok {
						emit(e.Pos(), e.End(), new(big.Int).Add(v, big.NewInt(1)).String(), "const+1")
						if v.Sign() > 0 {
							emit(e.Pos(), e.End(), new(big.Int).Sub(v, big.NewInt(1)).String(), "const-1")
						}
					}
				}
				if e.Kind == token.STRING && len(e.Value) > 2 {
					emit(e.Pos(), e.End(), e.Value[:len(e.Value)-2]+e.Value[len(e.Value)-1:], "shorten string")
				}
				if e.Kind == token.STRING && len(e.Value) == 2 {
					emit(e.Pos(), e.End(), `"x"`, "fill string")
				}
			case *ast.IfStmt:
				emit(e.Cond.Pos(), e.Cond.End(), "!("+text(e.Cond)+")", "negate if")
				emit(e.Cond.Pos(), e.Cond.End(), "false && ("+text(e.Cond)+")", "never if")
				emit(e.Cond.Pos(), e.Cond.End(), "true || ("+text(e.Cond)+")", "always if")
			case *ast.ForStmt:
				if e.Cond != nil {
					emit(e.Cond.Pos(), e.Cond.End(), "false && ("+text(e.Cond)+")", "never loop")
				}
			case *ast.ReturnStmt:
				for i, r := range e.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							emit(r.Pos(), r.End(), "nil", "drop error")
						case "true":
							emit(r.Pos(), r.End(), "false", "true -> false")
						case "false":
							emit(r.Pos(), r.End(), "true", "false -> true")
						}
					}
					if i == len(e.Results)-1 && strings.HasPrefix(text(r), "Err") {
						emit(r.Pos(), r.End(), "nil", "drop error")
					}
				}
			case *ast.BlockStmt:
				for _, s := range e.List {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "delete "+text(s))
					case *ast.AssignStmt:
						if x.Tok == token.ASSIGN || x.Tok.IsOperator() && x.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "delete "+text(s))
						}
					case *ast.ReturnStmt:
						if len(x.Results) == 0 {
							emit(s.Pos(), s.End(), "", "delete return")
						}
					case *ast.IfStmt:
						if x.Else == nil && x.Init == nil {
							emit(s.Pos(), s.End(), "", "delete if")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						emit(s.Pos(), s.End(), "", "delete loop")
					}
				}
			case *ast.SliceExpr:
				if e.Low != nil {
					emit(e.Low.Pos(), e.Low.End(), text(e.Low)+"+1", "low+1")
					emit(e.Low.Pos(), e.Low.End(), "", "drop low")
				}
				if e.High != nil {
					emit(e.High.Pos(), e.High.End(), text(e.High)+"-1", "high-1")
					emit(e.High.Pos(), e.High.End(), "", "drop high")
				}
			case *ast.IndexExpr:
				if _, ok := e.Index.(*ast.BasicLit); !ok {
					emit(e.Index.Pos(), e.Index.End(), text(e.Index)+"+1", "index+1")
				}
			case *ast.UnaryExpr:
				if e.Op == token.NOT {
					emit(e.Pos(), e.X.Pos(), "", "drop !")
				}
			case *ast.CallExpr:
				if s, ok := e.Fun.(*ast.SelectorExpr); ok {
					for _, p := range [][2]string{{"ToUpper", "ToLower"}, {"ToLower", "ToUpper"}, {"Fields", "Fields"}, {"HasPrefix", "Contains"}, {"HasSuffix", "Contains"}, {"Sum256", "Sum224"}, {"NewLegacyKeccak256", "New256"}, {"Lsh", "Rsh"}, {"Rsh", "Lsh"}, {"Contains", "HasPrefix"}} {
						if s.Sel.Name == p[0] && p[0] != p[1] {
							emit(s.Sel.Pos(), s.Sel.End(), p[1], p[0]+" -> "+p[1])
						}
					}
				}
				if len(e.Args) == 2 && text(e.Args[0]) != text(e.Args[1]) {
					emit(e.Args[0].Pos(), e.Args[1].End(), text(e.Args[1])+", "+text(e.Args[0]), "swap arguments")
				}
				if len(e.Args) == 1 {
					if id, ok := e.Fun.(*ast.Ident); ok && !ast.IsExported(id.Name) {
						emit(e.Pos(), e.End(), text(e.Args[0]), "drop call of "+id.Name)
					}
					if s, ok := e.Fun.(*ast.SelectorExpr); ok {
						emit(e.Pos(), e.End(), text(e.Args[0]), "drop call of "+s.Sel.Name)
					}
				}
			case *ast.SelectorExpr:
				n := e.Sel.Name
				for _, p := range [][2]string{{"PubKeyFlag", "PvtKeyFlag"}, {"PvtKeyFlag", "PubKeyFlag"}, {"Symbol", "Name"}, {"Name", "Symbol"}, {"Type", "PathComponent"}, {"PathComponent", "Type"}, {"StartIndex", "EndIndex"}, {"EndIndex", "StartIndex"}, {"X", "Y"}, {"Gx", "Gy"}, {"P", "N"}, {"N", "P"}} {
					if n == p[0] {
						emit(e.Sel.Pos(), e.Sel.End(), p[1], n+" -> "+p[1])
					}
				}
			}
			return true
		})
	}
	_ = fmt.Sprint
}
