// Mutgen lists small changes of Go source files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	Pos  int    `json:"pos"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Desc string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if x, ok := t.(*ast.IndexExpr); ok {
					t = x.X
				}
				name = fmt.Sprint(t) + "." + name
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			emit := func(n ast.Node, p, e token.Pos, t, desc string) {
				enc.Encode(mutant{filepath.Base(file), name, fset.Position(n.Pos()).Line, off(p), off(e), t, desc})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range swaps[x.Op] {
						emit(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, x.Pos(), x.End(), text(x.X), "left operand only of "+text(x))
						emit(x, x.Pos(), x.End(), text(x.Y), "right operand only of "+text(x))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, x.OpPos, x.OpPos+1, "", "no negation in "+text(x))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x, x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, x.Pos(), x.End(), "false", "true -> false")
					} else if x.Name == "false" {
						emit(x, x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(x, x.Pos(), x.End(), "", "dropped: if "+text(x.Cond))
					}
					emit(x, x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negated: if "+text(x.Cond))
				case *ast.ExprStmt:
					emit(x, x.Pos(), x.End(), "", "dropped: "+text(x))
				case *ast.DeferStmt:
					emit(x, x.Pos(), x.End(), "", "dropped: "+text(x))
				case *ast.IncDecStmt:
					emit(x, x.Pos(), x.End(), "", "dropped: "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x, x.Pos(), x.End(), "", "dropped: "+text(x))
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						emit(x, x.Pos(), x.End(), "", "dropped: "+x.Tok.String())
						if x.Tok == token.CONTINUE {
							emit(x, x.Pos(), x.End(), "break", "continue -> break")
						}
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Copy" && len(x.Args) == 0 {
						emit(x, x.Pos(), x.End(), text(s.X), "no copy: "+text(x))
					}
				case *ast.CaseClause:
					if len(x.List) > 0 && len(x.Body) > 0 {
						emit(x, x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+text(x.List[0]))
					}
				}
				return true
			})
		}
	}
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}
