// instr writes an instrumented copy of packages of the code under test and the overlay
// file that makes the go tool build it in place of the originals. The rewriting keeps the
// meaning of every statement: it adds a yield point before statements, splits
// read-modify-write updates at the read, and swaps the sync package for a wrapper.
//
//	instr -out DIR -module /verif/harness pkgdir...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const (
	vpath = "verif.local/gofercheck/vsync"
	vname = "vsync_"
)

// libs are packages the code uses under its own locks: instrumented copies of them let a
// missing lock show.
var libs = map[string]string{
	"container/list":                   "verif.local/gofercheck/inst/list",
	"github.com/golang/groupcache/lru": "verif.local/gofercheck/inst/lru",
	"github.com/google/btree":          "verif.local/gofercheck/inst/btree",
}

func main() {
	out := flag.String("out", "", "output directory")
	module := flag.String("module", "", "harness module root")
	list := flag.String("list", "", "GOROOT/src/container/list")
	lru := flag.String("lru", "", "groupcache/lru directory")
	btree := flag.String("btree", "", "btree directory")
	flag.Parse()
	repl := map[string]string{}
	n := 0
	do := func(dir string, target func(string) string) {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		if err != nil || len(files) == 0 {
			fail(fmt.Errorf("no go files in %s", dir))
		}
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(dir, filepath.Base(f)); err != nil || !ok {
				continue
			}
			src, err := os.ReadFile(f)
			fail(err)
			b, err := rewrite(f, src)
			fail(err)
			n++
			o := filepath.Join(*out, fmt.Sprintf("%03d_%s", n, filepath.Base(f)))
			fail(os.WriteFile(o, b, 0o644))
			repl[target(f)] = o
		}
	}
	for _, d := range flag.Args() {
		do(d, func(f string) string { return f })
	}
	for name, dir := range map[string]string{"list": *list, "lru": *lru, "btree": *btree} {
		if dir == "" {
			continue
		}
		do(dir, func(f string) string { return filepath.Join(*module, "inst", name, filepath.Base(f)) })
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	fail(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	// Comments are dropped except build constraints and embeds, which sit in the header or
	// before declarations; none of the instrumented packages use cgo or embed.
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var header []string
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				header = append(header, c.Text)
			}
		}
	}
	used := false
	runtimeName := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
			im.Path.Value = strconv.Quote(vpath)
		case "runtime":
			runtimeName = "runtime"
			if im.Name != nil {
				runtimeName = im.Name.Name
			}
		default:
			if q, ok := libs[p]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				im.Path.Value = strconv.Quote(q)
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Body != nil && fd.Name.Name != "init" {
			walk(fd.Body, &used)
		}
		if gd, ok := d.(*ast.GenDecl); ok { // function literals in variable initialisers
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					walk(fl.Body, &used)
					return false
				}
				return true
			})
		}
	}
	if runtimeName != "" { // runtime.Gosched in a spin loop must let virtual time pass
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == runtimeName && s.Sel.Name == "Gosched" {
					x.Name = vname
					used = true
				}
			}
			return true
		})
	}
	f.Comments = nil
	stripDocs(f)
	if used {
		addImport(f)
	}
	var b bytes.Buffer
	for _, h := range header {
		b.WriteString(h + "\n\n")
	}
	if err := format.Node(&b, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	res := b.Bytes()
	if runtimeName != "" && !bytes.Contains(res, []byte(runtimeName+".")) {
		res = append(res, []byte("\n")...)
	}
	if runtimeName != "" {
		res = append(res, []byte("\nvar _ = "+runtimeName+".NumCPU\n")...)
	}
	return res, nil
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(vname), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vpath)}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{gd}, f.Decls...)
}

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vname), Sel: ast.NewIdent("Yield")}}}
}

func walk(body *ast.BlockStmt, used *bool) {
	body.List = stmts(body.List, used)
}

func stmts(list []ast.Stmt, used *bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		inner(s, used)
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.DeclStmt:
			out = append(out, s)
			continue
		case *ast.LabeledStmt:
			switch x.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				out = append(out, yield(), s) // the label must stay on the loop
			default:
				// L: yield; S  keeps a backward goto yielding on every turn
				in := x.Stmt
				x.Stmt = yield()
				out = append(out, x, in)
			}
			*used = true
			continue
		case *ast.BranchStmt:
			if x.Tok == token.FALLTHROUGH {
				out = append(out, s)
				continue
			}
		}
		*used = true
		out = append(out, yield(), split(s))
	}
	return out
}

// split turns X op= Y and X++ into X = Val(X) op Y when evaluating X has no side effects.
func split(s ast.Stmt) ast.Stmt {
	val := func(x ast.Expr) ast.Expr {
		return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(vname), Sel: ast.NewIdent("Val")}, Args: []ast.Expr{x}}
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if _, local := x.X.(*ast.Ident); local || !pure(x.X) {
			return s
		}
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{
			&ast.BinaryExpr{X: val(x.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
	case *ast.AssignStmt:
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR,
			token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT, token.MUL_ASSIGN: token.MUL}
		if op, ok := ops[x.Tok]; ok && len(x.Lhs) == 1 && pure(x.Lhs[0]) {
			if _, local := x.Lhs[0].(*ast.Ident); local {
				return s
			}
			return &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{
				&ast.BinaryExpr{X: val(x.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}}}
		}
	}
	return s
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// inner instruments the blocks nested in a statement and the function literals in it.
func inner(s ast.Stmt, used *bool) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			walk(x, used)
			return false
		case *ast.SwitchStmt:
			clauses(x.Body, used)
			exprs(used, x.Init, x.Tag)
			return false
		case *ast.TypeSwitchStmt:
			clauses(x.Body, used)
			exprs(used, x.Init, x.Assign)
			return false
		case *ast.SelectStmt:
			clauses(x.Body, used)
			return false
		}
		return true
	})
}

func exprs(used *bool, nodes ...ast.Node) {
	for _, n := range nodes {
		switch x := n.(type) {
		case ast.Stmt:
			if x != nil {
				inner(x, used)
			}
		case ast.Expr:
			if x != nil {
				inner(&ast.ExprStmt{X: x}, used)
			}
		}
	}
}

func clauses(b *ast.BlockStmt, used *bool) {
	for _, s := range b.List {
		switch x := s.(type) {
		case *ast.CaseClause:
			for _, e := range x.List {
				exprs(used, e)
			}
			x.Body = stmts(x.Body, used)
		case *ast.CommClause:
			if x.Comm != nil {
				inner(x.Comm, used)
			}
			x.Body = stmts(x.Body, used)
		}
	}
}
