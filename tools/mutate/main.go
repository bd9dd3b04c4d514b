// mutate lists small changes of a Go file, one per line of JSON: {"file","line","from","to","desc","src"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mut struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	From, To int
	Text     string
	Desc     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(a, b token.Pos, t, desc string) {
			_ = enc.Encode(mut{file, fset.Position(a).Line, off(a), off(b), t, desc})
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					put(s.Pos(), s.End(), "", "remove: "+text(s))
				case *ast.GoStmt:
					put(s.Pos(), s.Pos()+2, "", "no go")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						t := ""
						for _, r := range s.Rhs {
							t += "_ = " + text(r) + ";"
						}
						if s.Tok == token.ASSIGN {
							put(s.Pos(), s.End(), t, "remove: "+text(s))
						} else {
							put(s.Pos(), s.End(), "", "remove: "+text(s))
						}
					}
				case *ast.BranchStmt:
					if s.Tok == token.BREAK || s.Tok == token.CONTINUE {
						put(s.Pos(), s.End(), "", "remove "+s.Tok.String())
					}
				case *ast.IfStmt:
					if s.Else == nil {
						put(s.Cond.Pos(), s.Cond.End(), "false && ("+text(s.Cond)+")", "never: "+text(s.Cond))
					}
					put(s.Cond.Pos(), s.Cond.End(), "true || ("+text(s.Cond)+")", "always: "+text(s.Cond))
				case *ast.ReturnStmt:
					if i == len(list)-1 && len(s.Results) == 0 {
						put(s.Pos(), s.End(), "", "remove return")
					}
				}
				if i+1 < len(list) {
					a, b := list[i], list[i+1]
					switch a.(type) {
					case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.DeferStmt:
						switch b.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.GoStmt:
							put(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap: "+text(a))
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				for _, e := range n.List {
					if len(n.List) > 1 {
						_ = e
					}
				}
				if len(n.Body) > 0 {
					put(n.Body[0].Pos(), n.Body[0].Pos(), "if true { break };", "empty case")
				}
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					put(n.Pos(), n.X.Pos(), "", "drop !")
				}
			case *ast.Ident:
				if n.Name == "true" {
					put(n.Pos(), n.End(), "false", "true->false")
				} else if n.Name == "false" {
					put(n.Pos(), n.End(), "true", "false->true")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					put(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+"+1")
					if n.Value != "0" {
						put(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+"-1")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					t := text(r)
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						put(r.Pos(), r.End(), "nil", "return nil for err")
					} else if _, ok := r.(*ast.CallExpr); ok && len(n.Results) > 1 && len(t) > 3 {
						put(r.Pos(), r.End(), "nil", "return nil for "+t)
					}
				}
			case *ast.SliceExpr:
				if n.Max != nil {
					put(n.High.End(), n.Max.End(), "", "drop max of slice")
				}
			case *ast.BinaryExpr:
				r := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}}[n.Op]
				for _, t := range r {
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, fmt.Sprintf("%s -> %s in %s", n.Op, t, text(n)))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put(n.X.End(), n.Y.End(), "", "only "+text(n.X)+" of "+text(n))
					put(n.X.Pos(), n.Y.Pos(), "", "only "+text(n.Y)+" of "+text(n))
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 && !n.Ellipsis.IsValid() {
					put(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap arguments of "+text(n))
				}
			}
			return true
		})
	}
}
