// mutate lists small changes of Go files: mutate file... prints one JSON object per change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File string
	Off  int
	End  int
	Repl string
	Desc string
	Line int
	Func string
}

var enc = json.NewEncoder(os.Stdout)

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fn := ""
		emit := func(from, to token.Pos, repl, desc string) {
			p := fset.Position(from)
			enc.Encode(change{f, p.Offset, fset.Position(to).Offset, repl, desc, p.Line, fn})
		}
		text := func(n ast.Node) string {
			return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"*"},
		}
		var cond func(e ast.Expr)
		cond = func(e ast.Expr) {
			emit(e.Pos(), e.End(), "true || ("+text(e)+")", "cond true: "+text(e))
			emit(e.Pos(), e.End(), "false && ("+text(e)+")", "cond false: "+text(e))
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, x.Op.String()+" -> "+r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "only left of: "+text(x))
						emit(x.Pos(), x.End(), text(x.Y), "only right of: "+text(x))
					}
				case *ast.IfStmt:
					cond(x.Cond)
					if x.Else != nil {
						emit(x.Body.End(), x.Else.End(), "", "no else")
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "loop never")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit(x.Pos(), x.X.Pos(), "", "no "+x.Op.String())
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), x.Value+" + 1")
							emit(x.Pos(), x.End(), "("+strconv.FormatInt(v-1, 10)+")", x.Value+" - 1")
						}
					case token.STRING:
						if len(x.Value) > 2 {
							emit(x.Pos(), x.End(), `""`, "empty "+x.Value)
						} else {
							emit(x.Pos(), x.End(), `"x"`, "not empty")
						}
					case token.CHAR:
						emit(x.Pos(), x.End(), `'\x01'`, "other than "+x.Value)
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "true")
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.TokPos, x.TokPos+2, "--", "--")
					} else {
						emit(x.TokPos, x.TokPos+2, "++", "++")
					}
					emit(x.Pos(), x.End(), "", "removed "+text(x))
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "removed "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "removed "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := text(x)
						r := ""
						// keeps the variables used
						emit(x.Pos(), x.End(), r, "removed "+s)
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit(x.Pos(), x.End(), "", "removed break")
						emit(x.Pos(), x.End(), "continue", "break -> continue")
					} else if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "", "removed continue")
						emit(x.Pos(), x.End(), "break", "continue -> break")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(x.Pos(), x.End(), "", "removed return")
					}
					for _, r := range x.Results {
						if _, ok := r.(*ast.CallExpr); ok {
							emit(r.Pos(), r.End(), "nil", "nil for "+text(r))
						}
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i := range x.List {
							if i == 0 {
								emit(x.List[0].Pos(), x.List[1].Pos(), "", "case without "+text(x.List[0]))
							} else {
								emit(x.List[i-1].End(), x.List[i].End(), "", "case without "+text(x.List[i]))
							}
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), text(x.Low)+"+1", "low + 1")
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), text(x.High)+"-1", "high - 1")
					}
				}
				return true
			})
		}
	}
}
