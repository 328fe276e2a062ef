// Mutate lists small changes of a Go source file as JSON lines:
// {"file","line","func","from","to","desc","old","new"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	Func     string `json:"func"`
	From, To int
	Desc     string `json:"desc"`
	New      string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(from, to token.Pos, desc, new string) {
				enc.Encode(mut{file, fset.Position(from).Line, fd.Name.Name, off(from), off(to), desc, new})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			repl := map[token.Token][]string{
				token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
				token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
				token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"}, token.REM: {"/"}, token.MUL: {"/"}, token.QUO: {"*"},
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range repl[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), n.Op.String()+" -> "+r, r)
					}
					if n.Op == token.LAND || n.Op == token.LOR { // drop an operand
						emit(n.Pos(), n.End(), "drop right of "+text(n), text(n.X))
						emit(n.Pos(), n.End(), "drop left of "+text(n), text(n.Y))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), n.Value+" -> +1", fmt.Sprint(v+1))
							if v > 0 {
								emit(n.Pos(), n.End(), n.Value+" -> -1", fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "negate "+text(n.Cond), "!("+text(n.Cond)+")")
					emit(n.Cond.Pos(), n.Cond.End(), "never "+text(n.Cond), "false && ("+text(n.Cond)+")")
					emit(n.Cond.Pos(), n.Cond.End(), "always "+text(n.Cond), "true || ("+text(n.Cond)+")")
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "delete "+text(n), "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						del := ""
						for i, l := range n.Lhs {
							if i < len(n.Rhs) && len(n.Lhs) == len(n.Rhs) {
								_ = l
							}
						}
						emit(n.Pos(), n.End(), "delete "+text(n), del)
					}
					if n.Tok == token.ADD_ASSIGN {
						emit(n.TokPos, n.TokPos+2, "+= -> -=", "-=")
					}
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "delete "+text(n), "")
				case *ast.DeferStmt:
					emit(n.Pos(), n.End(), "delete "+text(n), "")
				case *ast.BranchStmt:
					emit(n.Pos(), n.End(), "delete "+text(n), "")
					if n.Tok == token.CONTINUE && n.Label == nil {
						emit(n.Pos(), n.End(), "continue -> break", "break")
					}
					if n.Tok == token.BREAK && n.Label == nil {
						emit(n.Pos(), n.End(), "break -> continue", "continue")
					}
				case *ast.ReturnStmt:
					if len(n.Results) == 0 {
						emit(n.Pos(), n.End(), "delete return", "")
					}
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit(r.Pos(), r.End(), "flip "+id.Name, map[string]string{"true": "false", "false": "true"}[id.Name])
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), "low+1 "+text(n), "("+text(n.Low)+")+1")
					}
					if n.High != nil {
						emit(n.High.Pos(), n.High.End(), "high-1 "+text(n), "("+text(n.High)+")-1")
					}
				case *ast.CaseClause:
					if len(n.Body) > 0 {
						emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "empty case", "")
					}
				}
				return true
			})
		}
	}
}
