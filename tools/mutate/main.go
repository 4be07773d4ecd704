// Command mutate lists small changes of Go source files as JSON lines
// {file, line, start, end, new, op}; run.py applies them through overlays.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Start, End int
	New        string `json:"new"`
	Old        string `json:"old"`
	Op         string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, op, repl string) {
			enc.Encode(M{File: f, Line: fs.Position(n.Pos()).Line, Start: off(n.Pos()), End: off(n.End()), New: repl, Old: text(n), Op: op})
		}
		emitAt := func(n ast.Node, a, b token.Pos, op, repl string) {
			enc.Encode(M{File: f, Line: fs.Position(n.Pos()).Line, Start: off(a), End: off(b), New: repl, Old: string(src[off(a):off(b)]), Op: op})
		}
		rel := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
					emit(s, "delete-statement", "{}")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						repl := ""
						for i, r := range x.Rhs {
							if i > 0 {
								repl += ";"
							}
							repl += "_ = " + text(r)
						}
						if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
							repl = "{}"
						}
						emit(s, "delete-assignment", repl)
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(s, "delete-if", "_ = "+text(x.Cond))
					}
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i, e := range x.List {
						a, b := e.Pos(), e.End()
						if i+1 < len(x.List) {
							b = x.List[i+1].Pos()
						} else {
							a = x.List[i-1].End()
						}
						emitAt(e, a, b, "drop-case", "")
					}
				}
			case *ast.IfStmt:
				emit(x.Cond, "negate-if", "!("+text(x.Cond)+")")
			case *ast.BinaryExpr:
				for _, r := range rel[x.Op] {
					if x.Op == token.ADD {
						if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
						if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
					}
					emitAt(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), "operator", r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, "drop-right", text(x.X))
					emit(x, "drop-left", text(x.Y))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						emit(x, "int+1", fmt.Sprint(v+1))
						if v > 0 {
							emit(x, "int-1", fmt.Sprint(v-1))
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && v != "" {
						emit(x, "string", strconv.Quote("\x01zz"))
					}
				case token.CHAR:
					emit(x, "char", `'\x01'`)
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, "bool", "false")
				} else if x.Name == "false" {
					emit(x, "bool", "true")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if id, ok := x.Results[0].(*ast.Ident); !ok || id.Name != "nil" {
						_ = id
					}
				}
			}
			return true
		})
	}
}
