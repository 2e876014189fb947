// Command mutate lists small changes of Go source files, one JSON object per
// line: a development tool for finding out what the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	New      string
	Op       string
	Func     string
	Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, with, op string) {
			enc.Encode(mutant{file, off(from), off(to), with, op, fn, fset.Position(from).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fn = ""
			if x, ok := d.(*ast.FuncDecl); ok {
				fn = x.Name.Name
			}
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
					for _, a := range alt[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" to "+a)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "keep left operand")
						emit(x.Pos(), x.End(), text(x.Y), "keep right operand")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "literal +1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "literal -1")
							}
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 2 {
						q := x.Value[:1]
						in := x.Value[1 : len(x.Value)-1]
						if in != "" {
							emit(x.Pos(), x.End(), `""`, "empty string")
							if len(in) > 1 {
								emit(x.Pos(), x.End(), q+in[1:]+q, "string without first byte")
								emit(x.Pos(), x.End(), q+in[:len(in)-1]+q, "string without last byte")
							}
							if i := strings.LastIndex(in, "|"); i > 0 {
								emit(x.Pos(), x.End(), q+in[:i]+q, "string without last alternative")
							}
						}
					}
					if x.Kind == token.CHAR && x.Value != "'z'" {
						emit(x.Pos(), x.End(), "'z'", "char to z")
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], "flip")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "drop not")
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "drop call")
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "drop defer")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := ""
						for _, r := range x.Rhs { // keep things used
							s += "_ = " + text(r) + ";"
						}
						emit(x.Pos(), x.End(), s, "drop assignment")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "drop inc/dec")
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "continue to break")
						emit(x.Pos(), x.End(), "", "drop continue")
					} else if x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "break to continue")
						emit(x.Pos(), x.End(), "", "drop break")
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "0", "slice from 0")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice end -1")
					}
				case *ast.CaseClause:
					for i, e := range x.List {
						if len(x.List) > 1 {
							from, to := e.Pos(), e.End()
							if i+1 < len(x.List) {
								to = x.List[i+1].Pos()
							} else {
								from = x.List[i-1].End()
							}
							emit(from, to, "", "drop case value")
						}
					}
				}
				return true
			})
		}
	}
}
