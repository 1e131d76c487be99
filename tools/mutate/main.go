// mutate lists small changes of Go files as JSON lines {file, start, end, new, what}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New, What  string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, new string) {
			enc.Encode(mut{f, off(a), off(b), new, fmt.Sprintf("%d: %.60q -> %.60q", fs.Position(a).Line, src[off(a):off(b)], new)})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec, *ast.GenDecl:
				if g, ok := n.(*ast.GenDecl); ok && g.Tok != token.IMPORT {
					return true
				}
				return false
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}}[n.Op]
				if n.Op == token.ADD {
					if l, ok := n.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						break
					}
					if l, ok := n.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						break
					}
				}
				for _, a := range alt {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), txt(n.X))
					emit(n.Pos(), n.End(), txt(n.Y))
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
				if n.Kind == token.STRING && len(n.Value) > 2 {
					emit(n.Pos(), n.End(), `""`)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.OpPos, n.OpPos+1, "")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+txt(n.Cond)+")")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+txt(n.Cond)+")")
				if n.Else != nil {
					if b, ok := n.Else.(*ast.BlockStmt); ok {
						emit(b.Pos(), b.End(), "{}")
					}
				}
			case *ast.ExprStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.IncDecStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit(n.Pos(), n.End(), "")
				}
				if n.Tok == token.ADD_ASSIGN {
					emit(n.TokPos, n.TokPos+2, "=")
				}
			case *ast.DeferStmt:
				emit(n.Pos(), n.End(), "")
			case *ast.GoStmt:
				emit(n.Pos(), n.Pos()+2, "")
			case *ast.BranchStmt:
				emit(n.Pos(), n.End(), "")
				if n.Label == nil && n.Tok == token.BREAK {
					emit(n.Pos(), n.End(), "continue")
				}
				if n.Label == nil && n.Tok == token.CONTINUE {
					emit(n.Pos(), n.End(), "break")
				}
			case *ast.CaseClause:
				if n.List != nil {
					for _, s := range n.Body {
						_ = s
					}
					if len(n.Body) > 0 {
						emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
					}
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					switch t := txt(r); t {
					case "true":
						emit(r.Pos(), r.End(), "false")
					case "false":
						emit(r.Pos(), r.End(), "true")
					case "err":
						emit(r.Pos(), r.End(), "nil")
					}
				}
			}
			return true
		})
	}
}
