// Command mutants lists single-point changes of Go files, one JSON object per line, for measuring
// what the checks notice. Usage: mutants FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Beg  int    `json:"beg"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Kind string `json:"kind"`
	Func string `json:"func"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		cur := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(b, e token.Pos, nw, kind string) {
			enc.Encode(mutant{fn, fs.Position(b).Line, off(b), off(e), nw, string(src[off(b):off(e)]), kind, cur})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							out(x.Pos(), x.End(), fmt.Sprint(v+1), "lit")
						}
					}
				case *ast.IncDecStmt:
					s := "--"
					if x.Tok == token.DEC {
						s = "++"
					}
					out(x.TokPos, x.TokPos+2, s, "incdec")
				case *ast.IfStmt:
					b := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
					out(x.Cond.Pos(), x.Cond.End(), "false && ("+b+")", "iffalse")
					out(x.Cond.Pos(), x.Cond.End(), "true || ("+b+")", "iftrue")
				case *ast.ForStmt:
					if x.Cond != nil {
						b := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
						_ = b
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						out(x.Pos(), x.End(), "break", "branch")
					} else if x.Label == nil && x.Tok == token.BREAK {
						out(x.Pos(), x.End(), "continue", "branch")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						out(x.Pos(), x.End(), "", "del")
					}
					switch x.Tok {
					case token.ADD_ASSIGN:
						out(x.TokPos, x.TokPos+2, "-=", "assign")
					case token.SUB_ASSIGN:
						out(x.TokPos, x.TokPos+2, "+=", "assign")
					case token.MUL_ASSIGN:
						out(x.TokPos, x.TokPos+2, "/=", "assign")
					case token.QUO_ASSIGN:
						out(x.TokPos, x.TokPos+2, "*=", "assign")
					}
				case *ast.ExprStmt, *ast.DeferStmt:
					out(n.Pos(), n.End(), "", "del")
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						out(x.OpPos, x.OpPos+1, "", "unary")
					}
				case *ast.SliceExpr:
				case *ast.ReturnStmt:
				}
				return true
			})
		}
	}
}
