// mutate lists small changes of Go files as JSON lines: file, line, kind, start, end, new.
//
//	go run main.go FILE...
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Kind, Old, New string
	Line, Start, End     int
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, s, e token.Pos, repl string) {
			out.Encode(mutant{file, kind, string(src[off(s):off(e)]), repl, fs.Position(s).Line, off(s), off(e)})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok == token.VAR || n.Tok == token.CONST
			case *ast.BinaryExpr:
				end := n.OpPos + token.Pos(len(n.Op.String()))
				for _, o := range map[token.Token][]string{
					token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"},
				}[n.Op] {
					emit("operator", n.OpPos, end, o)
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.Pos(), n.X.Pos(), "")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if x, err := strconv.Atoi(n.Value); err == nil {
						emit("const", n.Pos(), n.End(), strconv.Itoa(x+1))
						if x > 0 {
							emit("const", n.Pos(), n.End(), strconv.Itoa(x-1))
						}
					}
				case token.CHAR:
					emit("char", n.Pos(), n.End(), "'~'")
				}
			case *ast.IfStmt:
				emit("cond", n.Cond.Pos(), n.Cond.End(), "true || "+par(text(n.Cond)))
				emit("cond", n.Cond.Pos(), n.Cond.End(), "false && "+par(text(n.Cond)))
			case *ast.ForStmt:
				if n.Cond != nil {
					emit("cond", n.Cond.Pos(), n.Cond.End(), "false && "+par(text(n.Cond)))
				}
			case *ast.CaseClause:
				dels(n.Body, emit)
				for i, x := range n.List {
					if len(n.List) > 1 {
						s, e := x.Pos(), x.End()
						if i+1 < len(n.List) {
							e = n.List[i+1].Pos()
						} else {
							s = n.List[i-1].End()
						}
						emit("case", s, e, "")
					}
				}
			case *ast.BlockStmt:
				dels(n.List, emit)
			case *ast.ReturnStmt:
				if k := len(n.Results); k > 0 {
					last := n.Results[k-1]
					if t := text(last); t != "nil" && (t == "err" || len(t) > 7 && t[:7] == "errors." || len(t) > 3 && t[:4] == "fmt.") {
						emit("noerr", last.Pos(), last.End(), "nil")
					}
					if t := text(last); t == "true" {
						emit("bool", last.Pos(), last.End(), "false")
					} else if t == "false" {
						emit("bool", last.Pos(), last.End(), "true")
					}
				}
			case *ast.AssignStmt:
				for _, r := range n.Rhs {
					if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
						emit("bool", r.Pos(), r.End(), "false")
					} else if ok && id.Name == "false" {
						emit("bool", r.Pos(), r.End(), "true")
					}
				}
			}
			return true
		})
	}
}

func par(s string) string { return "(" + s + ")" }

func dels(list []ast.Stmt, emit func(string, token.Pos, token.Pos, string)) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
			emit("delete", s.Pos(), s.End(), "")
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				emit("delete", s.Pos(), s.End(), "")
			}
		case *ast.BranchStmt:
			if s.Tok != token.FALLTHROUGH {
				emit("delete", s.Pos(), s.End(), "")
			}
		case *ast.IfStmt:
			emit("delete", s.Pos(), s.End(), "")
		}
	}
}
