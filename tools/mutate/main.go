// Lists small syntactic changes of Go files, one JSON object a line: used to look for
// changes that the checks do not notice. It decides no property.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	From, To int
	Text     string
}

type mutant struct {
	File, Func, Kind, Old string
	Line                  int
	Edits                 []edit
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			out := func(kind string, n ast.Node, es ...edit) {
				enc.Encode(mutant{file, fd.Name.Name, kind, string(src[off(n.Pos()):min(off(n.End()), off(n.Pos())+90)]), fs.Position(n.Pos()).Line, es})
			}
			repl := func(kind string, n ast.Node, text string) { out(kind, n, edit{off(n.Pos()), off(n.End()), text}) }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			locks := map[string][]ast.Node{}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[n.Op] {
						out("op "+n.Op.String()+"→"+s, n, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), s})
					}
				case *ast.IfStmt:
					repl("negate", n.Cond, "!("+text(n.Cond)+")")
					repl("cond", n.Cond, "("+text(n.Cond)+") && false")
					repl("cond", n.Cond, "("+text(n.Cond)+") || true")
				case *ast.ForStmt:
					if n.Cond != nil {
						repl("cond", n.Cond, "("+text(n.Cond)+") && false")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							repl("const", n, fmt.Sprint(v+1))
							if v > 0 {
								repl("const", n, fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						repl("bool", n, "false")
					}
					if n.Name == "false" {
						repl("bool", n, "true")
					}
				case *ast.ExprStmt:
					if c, ok := n.X.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok {
							switch s.Sel.Name {
							case "Lock", "RLock", "Unlock", "RUnlock":
								locks[text(s.X)] = append(locks[text(s.X)], n)
								if s.Sel.Name == "RLock" || s.Sel.Name == "Lock" || s.Sel.Name == "RUnlock" || s.Sel.Name == "Unlock" {
									repl("delete", n, "")
								}
								return false
							}
						}
					}
					repl("delete", n, "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						es := "_ = 0"
						for _, r := range n.Rhs {
							es += "; _ = " + text(r)
						}
						repl("delete", n, es)
					}
				case *ast.IncDecStmt:
					repl("delete", n, "")
				case *ast.DeferStmt:
					if s, ok := n.Call.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Unlock" || s.Sel.Name == "RUnlock") {
						locks[text(s.X)] = append(locks[text(s.X)], n)
						return false
					}
					repl("delete", n, "")
				case *ast.GoStmt:
					repl("no go", n, text(n.Call))
				case *ast.BranchStmt:
					if n.Label == nil {
						repl("delete", n, "")
						if n.Tok == token.BREAK {
							repl("branch", n, "continue")
						}
						if n.Tok == token.CONTINUE {
							repl("branch", n, "break")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || id.Name == "er") {
							repl("nil error", r, "nil")
						}
					}
					if len(n.Results) == 0 {
						repl("delete", n, "")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						repl("not", n, text(n.X))
					}
				}
				return true
			})
			for x, ns := range locks {
				if len(ns) < 2 {
					continue
				}
				var es []edit
				for _, n := range ns {
					es = append(es, edit{off(n.Pos()), off(n.End()), ""})
				}
				out("unlocked "+x, ns[0], es...)
				var rs []edit
				for _, n := range ns {
					var s *ast.SelectorExpr
					switch n := n.(type) {
					case *ast.ExprStmt:
						s = n.X.(*ast.CallExpr).Fun.(*ast.SelectorExpr)
					case *ast.DeferStmt:
						s = n.Call.Fun.(*ast.SelectorExpr)
					}
					if s.Sel.Name == "Lock" || s.Sel.Name == "Unlock" {
						rs = append(rs, edit{off(s.Sel.Pos()), off(s.Sel.End()), "R" + s.Sel.Name})
					}
				}
				if len(rs) > 0 {
					out("read lock "+x, ns[0], rs...)
				}
			}
		}
	}
}
