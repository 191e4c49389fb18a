// mut lists small changes to the Go files given, as JSON: one deleted
// statement, one negated condition, one other operator or constant each.
// Not used by any check: it is how the checks are tried out.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mutant struct {
	File, Func, What string
	Line, From, To   int
	New              string
}

var swap = map[token.Token]string{
	token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==",
	token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*",
}

func main() {
	var all []mutant
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			add := func(a, b token.Pos, repl, what string) {
				old := string(src[off(a):off(b)])
				if strings.Contains(old, "log.") || strings.Contains(old, "fmt.Print") || strings.Contains(old, "runtime.Gosched") || strings.Contains(old, "zlog.") {
					return
				}
				if len(old) > 60 {
					old = old[:57] + "..."
				}
				all = append(all, mutant{name, fd.Name.Name, what + ": " + strings.Join(strings.Fields(old), " "), fs.Position(a).Line, off(a), off(b), repl})
			}
			cond := func(e ast.Expr) {
				if e != nil {
					add(e.Pos(), e.End(), "!("+string(src[off(e.Pos()):off(e.End())])+")", "negate")
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
					var list []ast.Stmt
					switch n := n.(type) {
					case *ast.BlockStmt:
						list = n.List
					case *ast.CaseClause:
						list = n.Body
					case *ast.CommClause:
						list = n.Body
					}
					for _, s := range list {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.BranchStmt:
							add(s.Pos(), s.End(), "", "delete")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								add(s.Pos(), s.End(), "", "delete")
							}
						case *ast.ReturnStmt:
							if len(s.Results) == 0 {
								add(s.Pos(), s.End(), "", "delete")
							}
						case *ast.IfStmt:
							if s.Init == nil && s.Else == nil {
								add(s.Pos(), s.End(), "", "delete")
							}
						}
					}
				case *ast.IfStmt:
					cond(n.Cond)
				case *ast.ForStmt:
				case *ast.BinaryExpr:
					if r, ok := swap[n.Op]; ok {
						add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, "operator in "+string(src[off(n.Pos()):off(n.End())])+" line")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						add(n.Pos(), n.End(), "("+n.Value+"+1)", "constant")
					}
				case *ast.Ident:
					if n.Name == "true" {
						add(n.Pos(), n.End(), "false", "constant")
					} else if n.Name == "false" {
						add(n.Pos(), n.End(), "true", "constant")
					}
				}
				return true
			})
		}
	}
	b, _ := json.MarshalIndent(all, "", " ")
	fmt.Println(string(b))
}
