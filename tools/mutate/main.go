// mutate lists small source mutations of Go files, as JSON lines with byte offsets.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string
	Line       int
	Func       string
	Desc       string
	Start, End int
	Repl       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		fun := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, desc string, s, e token.Pos, repl string) {
			enc.Encode(mut{fn, fs.Position(n.Pos()).Line, fun, desc, off(s), off(e), repl})
		}
		isLog := func(n ast.Node) bool {
			es, ok := n.(*ast.ExprStmt)
			if !ok {
				return false
			}
			c, ok := es.X.(*ast.CallExpr)
			if !ok {
				return false
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return false
			}
			x, ok := s.X.(*ast.Ident)
			return ok && (x.Name == "log" || x.Name == "fmt")
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fun = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if n == nil || isLog(n) {
					return false
				}
				switch x := n.(type) {
				case *ast.IfStmt:
					emit(x, "negate if "+text(x.Cond), x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					if x.Else == nil && x.Init == nil {
						emit(x, "never if "+text(x.Cond), x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}}[x.Op]
					for _, a := range alt {
						emit(x, text(x)+": "+x.Op.String()+" -> "+a, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, "only left of "+text(x), x.Pos(), x.End(), text(x.X))
						emit(x, "only right of "+text(x), x.Pos(), x.End(), text(x.Y))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x, fmt.Sprintf("%d -> %d", v, v+1), x.Pos(), x.End(), strconv.Itoa(v+1))
						}
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit(x, "flip "+x.Name, x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
					}
				case *ast.ExprStmt:
					emit(x, "delete "+text(x), x.Pos(), x.End(), "")
				case *ast.DeferStmt:
					if len(text(x)) < 120 {
						emit(x, "delete "+text(x), x.Pos(), x.End(), "")
					}
				case *ast.IncDecStmt:
					emit(x, "delete "+text(x), x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						repl := ""
						for _, r := range x.Rhs {
							if _, ok := r.(*ast.FuncLit); !ok {
								repl += "_ = " + text(r) + ";"
							}
						}
						if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
							emit(x, "drop "+text(x), x.Pos(), x.End(), repl)
						} else {
							emit(x, "delete "+text(x), x.Pos(), x.End(), "")
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x, "continue -> break", x.Pos(), x.End(), "break")
						emit(x, "delete continue", x.Pos(), x.End(), "")
					} else if x.Label == nil && x.Tok == token.BREAK {
						emit(x, "delete break", x.Pos(), x.End(), "")
					}
				case *ast.ReturnStmt:
					if k := len(x.Results); k > 0 {
						l := x.Results[k-1]
						if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
							emit(x, "return err -> nil", l.Pos(), l.End(), "nil")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x, "low+1 of "+text(x), x.Low.Pos(), x.Low.End(), text(x.Low)+"+1")
					}
					if x.High != nil {
						emit(x, "high-1 of "+text(x), x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					}
				}
				return true
			})
		}
	}
}
