// mutate lists and applies single mutations of Go source files.
//
//	mutate list FILE...          prints one line per mutation: index, position, description
//	mutate apply FILE INDEX      prints the mutated file
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mutation struct {
	pos  token.Position
	what string
	do   func()
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.QUO: {token.MUL}, token.REM: {token.QUO},
}

func find(fs *token.FileSet, f *ast.File) []mutation {
	ms := []mutation{}
	add := func(n ast.Node, what string, do func()) { ms = append(ms, mutation{fs.Position(n.Pos()), what, do}) }
	inFunc := 0
	var walk func(n ast.Node)
	stmts := func(list *[]ast.Stmt) {
		for i, s := range *list {
			i := i
			switch x := s.(type) {
			case *ast.ExprStmt:
				add(s, "delete statement", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "delete assignment", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
				}
			case *ast.IncDecStmt:
				add(s, "delete ++/--", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(s, "delete if", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
				}
			}
		}
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				inFunc++
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, t := range swaps[x.Op] {
					t, old := t, x.Op
					add(x, fmt.Sprintf("%s -> %s", old, t), func() { x.Op = t })
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						old := x.Value
						add(x, fmt.Sprintf("%s -> %d", old, v+1), func() { x.Value = strconv.FormatInt(v+1, 10) })
						if v > 0 {
							add(x, fmt.Sprintf("%s -> %d", old, v-1), func() { x.Value = strconv.FormatInt(v-1, 10) })
						}
					}
				} else if x.Kind == token.STRING && len(x.Value) > 2 {
					add(x, "change string "+x.Value, func() { x.Value = x.Value[:len(x.Value)-1] + "Q" + x.Value[len(x.Value)-1:] })
				}
			case *ast.IfStmt:
				add(x, "negate condition", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
				if x.Else != nil {
					add(x, "delete else", func() { x.Else = nil })
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x, "drop !", func() { x.Op = token.ADD; x.X = &ast.ParenExpr{X: &ast.UnaryExpr{Op: token.NOT, X: x.X}}; x.Op = token.NOT })
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x, "true -> false", func() { x.Name = "false" })
				} else if x.Name == "false" {
					add(x, "false -> true", func() { x.Name = "true" })
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					if _, ok := x.Results[k-1].(*ast.CallExpr); ok {
						add(x, "last result -> nil", func() { x.Results[k-1] = ast.NewIdent("nil") })
					} else if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
						add(x, "err -> nil", func() { x.Results[k-1] = ast.NewIdent("nil") })
					}
				}
			case *ast.BlockStmt:
				stmts(&x.List)
			case *ast.CaseClause:
				stmts(&x.Body)
				if len(x.List) > 1 {
					add(x, "drop last case value", func() { x.List = x.List[:len(x.List)-1] })
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					add(x, "break -> continue", func() { x.Tok = token.CONTINUE })
				} else if x.Tok == token.CONTINUE {
					add(x, "continue -> break", func() { x.Tok = token.BREAK })
				}
			}
			return true
		})
	}
	walk(f)
	return ms
}

func main() {
	fs := token.NewFileSet()
	load := func(name string) (*ast.File, []mutation) {
		f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		return f, find(fs, f)
	}
	switch os.Args[1] {
	case "list":
		for _, n := range os.Args[2:] {
			_, ms := load(n)
			for i, m := range ms {
				fmt.Printf("%s\t%d\t%d\t%s\n", n, i, m.pos.Line, m.what)
			}
		}
	case "apply":
		f, ms := load(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		ms[i].do()
		var b bytes.Buffer
		if err := printer.Fprint(&b, fs, f); err != nil {
			panic(err)
		}
		os.Stdout.Write(b.Bytes())
	}
}
