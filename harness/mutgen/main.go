// Command mutgen lists small changes (mutations) of Go files as byte ranges and
// replacements, one JSON object per line. It serves to look for behaviour that
// no monitor watches; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Op    string `json:"op"`
	Old   string `json:"old"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(s, e token.Pos, repl, op string) {
			a, b := off(s), off(e)
			old := string(src[a:b])
			if old == repl {
				return
			}
			if len(old) > 100 {
				old = old[:100]
			}
			enc.Encode(mut{f, fs.Position(s).Line, a, b, repl, op, old})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Lock" || se.Sel.Name == "RLock") {
							// Without this lock and the unlock that follows.
							if i+1 < len(l) {
								if d, ok := l[i+1].(*ast.DeferStmt); ok {
									out(s.Pos(), d.End(), "", "no lock")
								}
							}
							un := map[string]string{"Lock": "Unlock", "RLock": "RUnlock"}[se.Sel.Name]
							for j := i + 1; j < len(l); j++ {
								if e, ok := l[j].(*ast.ExprStmt); ok && text(e) == text(se.X)+"."+un+"()" {
									out(s.Pos(), e.End(), string(src[off(s.End()):off(e.Pos())]), "no lock")
									break
								}
							}
							continue
						}
						if se, ok := c.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Unlock" || se.Sel.Name == "RUnlock") {
							continue
						}
					}
					out(s.Pos(), s.End(), "", "delete statement")
				case *ast.IncDecStmt, *ast.SendStmt:
					out(s.Pos(), s.End(), "", "delete statement")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
						blank := "_"
						for j := 1; j < len(x.Lhs); j++ {
							blank += ", _"
						}
						if len(x.Rhs) == len(x.Lhs) && x.Tok == token.ASSIGN {
							out(s.Pos(), s.End(), blank+" = "+string(src[off(x.Rhs[0].Pos()):off(x.Rhs[len(x.Rhs)-1].End())]), "drop assignment")
						} else {
							out(s.Pos(), s.End(), "", "delete statement")
						}
						if x.Tok == token.ADD_ASSIGN {
							out(x.TokPos, x.TokPos+2, "-=", "operator")
						}
					}
				case *ast.DeferStmt:
					if se, ok := x.Call.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Unlock" || se.Sel.Name == "RUnlock") {
						continue
					}
					out(s.Pos(), s.End(), "", "delete defer")
					out(s.Pos(), x.Call.Pos(), "", "defer now")
				case *ast.GoStmt:
					out(s.Pos(), s.End(), "", "delete go")
					out(s.Pos(), x.Call.Pos(), "", "go now")
				case *ast.BranchStmt:
					if x.Label == nil {
						switch x.Tok {
						case token.CONTINUE:
							out(s.Pos(), s.End(), "break", "branch")
							out(s.Pos(), s.End(), "", "branch")
						case token.BREAK:
							out(s.Pos(), s.End(), "", "branch")
							out(s.Pos(), s.End(), "continue", "branch")
						}
					}
				case *ast.IfStmt:
					if x.Else == nil {
						out(s.Pos(), s.End(), "", "delete if")
					}
				case *ast.ForStmt, *ast.RangeStmt:
					out(s.Pos(), s.End(), "", "delete loop")
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if x.List != nil && len(x.Body) > 0 {
					out(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case")
				}
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.IfStmt:
				c := text(x.Cond)
				out(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate")
				out(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always")
				out(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never")
			case *ast.ForStmt:
				if x.Cond != nil {
					out(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never loop")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"},
				}[x.Op]
				for _, a := range alt {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "operator")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					out(x.Pos(), x.End(), text(x.X), "left only")
					out(x.Pos(), x.End(), text(x.Y), "right only")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					out(x.Pos(), x.End(), text(x.X), "drop not")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						out(x.Pos(), x.End(), fmt.Sprint(v+1), "literal")
						if v > 0 {
							out(x.Pos(), x.End(), fmt.Sprint(v-1), "literal")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "literal")
				} else if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "literal")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err") {
						out(r.Pos(), r.End(), "nil", "return nil")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					out(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice")
				}
				if x.High != nil {
					out(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice")
				}
				if x.Max != nil {
					out(x.High.End(), x.Max.End(), "", "slice max")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					out(x.Pos(), x.End(), text(x.Args[0]), "no append")
				}
				for i := 0; i+1 < len(x.Args); i++ {
					if _, ok := x.Args[i].(*ast.Ident); !ok {
						continue
					}
					if _, ok := x.Args[i+1].(*ast.Ident); ok {
						out(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swap arguments")
					}
				}
			case *ast.KeyValueExpr:
				out(x.Pos(), x.End(), "", "drop field")
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			}
			return true
		})
	}
}
