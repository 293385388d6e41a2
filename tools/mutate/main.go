// mutate lists small changes to Go sources, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		n := 0
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(kind string, a, b int, repl string) {
			n++
			enc.Encode(mutant{fmt.Sprintf("%s#%d", file, n), file, fset.Position(f.FileStart + token.Pos(a)).Line, a, b, repl, string(src[a:b]), kind})
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[x.Op] {
					a := off(x.OpPos)
					emit("op", a, a+len(x.Op.String()), s)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit("int", off(x.Pos()), off(x.End()), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", off(x.Pos()), off(x.End()), fmt.Sprint(v-1))
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 3 {
					emit("string", off(x.Pos()), off(x.End()), x.Value[:1]+"@"+x.Value[2:])
				}
			case *ast.IfStmt:
				a, b := off(x.Cond.Pos()), off(x.Cond.End())
				emit("if-true", a, b, "("+string(src[a:b])+") || true")
				emit("if-false", a, b, "("+string(src[a:b])+") && false")
			case *ast.ForStmt:
				if x.Cond != nil {
					a, b := off(x.Cond.Pos()), off(x.Cond.End())
					emit("for-false", a, b, "("+string(src[a:b])+") && false")
				}
			case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.GoStmt:
				emit("del", off(x.Pos()), off(x.End()), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					a, b := off(x.Pos()), off(x.End())
					emit("del", a, b, "")
					if len(x.Lhs) == 1 && x.Tok == token.ASSIGN {
						emit("blank", off(x.Lhs[0].Pos()), off(x.Lhs[0].End()), "_")
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					switch x.Tok {
					case token.BREAK:
						emit("branch", off(x.Pos()), off(x.End()), "continue")
					case token.CONTINUE:
						emit("branch", off(x.Pos()), off(x.End()), "break")
					}
				}
			case *ast.ReturnStmt:
				// success instead of an error, or the other way round
				if k := len(x.Results); k > 0 {
					last := x.Results[k-1]
					a, b := off(last.Pos()), off(last.End())
					if string(src[a:b]) == "err" {
						emit("ret", a, b, "nil")
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", off(x.OpPos), off(x.OpPos)+1, "")
				}
			case *ast.CaseClause:
				for _, e := range x.List {
					if len(x.List) > 1 && e != x.List[len(x.List)-1] {
						// drop one alternative
						a, b := off(e.Pos()), off(e.End())
						k := b
						for src[k] == ',' || src[k] == ' ' || src[k] == '\n' || src[k] == '\t' {
							k++
						}
						emit("case", a, k, "")
					}
				}
			}
			return true
		})
	}
}
