// Command mutate prints, one JSON line each, the single-site mutants of the Go files given:
// {"file", "line", "func", "what", "from", "to", "start", "end", "text"}: bytes start..end of
// the file are replaced with text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	What  string `json:"what"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.MUL_ASSIGN: {"/=", "="}, token.QUO_ASSIGN: {"*=", "="}, token.SHR_ASSIGN: {"<<="},
}

func main() {
	out := json.NewEncoder(os.Stdout)
	out.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		fn := "init"
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(p token.Pos, start, end int, text, what string) {
			out.Encode(mutant{name, fset.Position(p).Line, fn, what + ": " + string(src[start:end]) + " -> " + text, start, end, text})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fn = "init"
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, t := range swaps[x.Op] {
						emit(x.OpPos, off(x.OpPos), off(x.OpPos)+len(x.Op.String()), t, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), off(x.Pos()), off(x.End()), txt(x.X), "drop right")
						emit(x.Pos(), off(x.Pos()), off(x.End()), txt(x.Y), "drop left")
					}
				case *ast.UnaryExpr:
					if x.Op == token.SUB || x.Op == token.NOT {
						emit(x.Pos(), off(x.Pos()), off(x.X.Pos()), "", "unary")
					}
				case *ast.AssignStmt:
					for _, t := range swaps[x.Tok] {
						emit(x.TokPos, off(x.TokPos), off(x.TokPos)+len(x.Tok.String()), t, "assign")
					}
					if x.Tok != token.DEFINE {
						emit(x.Pos(), off(x.Pos()), off(x.End()), "{}", "drop")
					}
					if len(x.Lhs) == 2 && len(x.Rhs) == 2 {
						emit(x.Pos(), off(x.Rhs[0].Pos()), off(x.Rhs[1].End()), txt(x.Rhs[1])+", "+txt(x.Rhs[0]), "swap")
					}
				case *ast.ExprStmt:
					emit(x.Pos(), off(x.Pos()), off(x.End()), "{}", "drop")
				case *ast.IncDecStmt:
					t := "++"
					if x.Tok == token.INC {
						t = "--"
					}
					emit(x.TokPos, off(x.TokPos), off(x.TokPos)+2, t, "incdec")
				case *ast.IfStmt:
					emit(x.Pos(), off(x.Cond.Pos()), off(x.Cond.End()), "!("+txt(x.Cond)+")", "negate")
					emit(x.Pos(), off(x.Cond.Pos()), off(x.Cond.End()), "("+txt(x.Cond)+") && false", "never")
					emit(x.Pos(), off(x.Cond.Pos()), off(x.Cond.End()), "("+txt(x.Cond)+") || true", "always")
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit(x.Pos(), off(x.Pos()), off(x.End()), "continue", "branch")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 && fn != "newError" {
						switch txt(x.Results[0]) {
						case "err":
							emit(x.Pos(), off(x.Results[0].Pos()), off(x.Results[0].End()), "nil", "return")
						}
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), off(x.Pos()), off(x.End()), fmt.Sprint(v+1), "const")
							if v > 0 {
								emit(x.Pos(), off(x.Pos()), off(x.End()), fmt.Sprint(v-1), "const")
							}
						}
					case token.FLOAT:
						v, err := strconv.ParseFloat(x.Value, 64)
						if err == nil {
							emit(x.Pos(), off(x.Pos()), off(x.End()), strconv.FormatFloat(v*1.01+0.001, 'g', -1, 64), "const")
						}
					case token.STRING:
						s, _ := strconv.Unquote(x.Value)
						if len(s) > 0 && len(s) <= 3 {
							emit(x.Pos(), off(x.Pos()), off(x.End()), strconv.Quote(s[:len(s)-1]+"Q"), "string")
						}
					}
				case *ast.Ident:
					// confusions of the axes
					m := map[string]string{"Dx": "Dy", "Dy": "Dx", "Px": "Dx", "Py": "Dy", "Rx": "Ry", "Ry": "Rx", "offx": "offy", "offy": "offx", "min": "max", "max": "min",
						"north": "east", "east": "north", "Sin": "Cos", "Cos": "Sin", "dx": "dy", "dy": "dx", "beginKey": "endKey", "endKey": "beginKey", "beginValue": "endValue", "endValue": "beginValue",
						"c1": "c2", "c2": "c3", "c3": "c4", "c4": "c1"}
					if t, ok := m[x.Name]; ok {
						emit(x.Pos(), off(x.Pos()), off(x.End()), t, "name")
					}
				}
				return true
			})
		}
	}
}
