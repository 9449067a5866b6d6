// mutate FILE: number of mutants. mutate FILE K: the source of mutant K on stdout, a description on stderr.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, do func(), what string, a ...interface{}) {
		ms = append(ms, mut{p, fmt.Sprintf(what, a...), do})
	}
	src := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := strings.Join(strings.Fields(b.String()), " ")
		if len(s) > 90 {
			s = s[:90]
		}
		return s
	}
	swap := map[token.Token]token.Token{token.LAND: token.LOR, token.LOR: token.LAND, token.EQL: token.NEQ, token.NEQ: token.EQL,
		token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.ADD: token.SUB, token.SUB: token.ADD}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			i, s := i, s
			ok := false
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
				ok = true
			case *ast.AssignStmt:
				ok = x.Tok != token.DEFINE
			case *ast.IfStmt:
				ok = x.Else == nil
			case *ast.ReturnStmt:
				ok = len(x.Results) == 0
			}
			if ok {
				add(s.Pos(), func() { l[i] = &ast.EmptyStmt{} }, "delete: %s", src(s))
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
			if len(x.List) > 1 {
				add(x.Pos(), func() { x.List = x.List[:len(x.List)-1] }, "case without its last value: %s", src(x.List[len(x.List)-1]))
			}
		case *ast.IfStmt:
			add(x.Pos(), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} }, "negate: %s", src(x.Cond))
		case *ast.BinaryExpr:
			if t, ok := swap[x.Op]; ok {
				add(x.OpPos, func() { x.Op = t }, "%s -> %s: %s", x.Op, t, src(x))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, func() { x.Y = x.X }, "right side dropped: %s", src(x))
				add(x.OpPos, func() { x.X = x.Y }, "left side dropped: %s", src(x))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					add(x.Pos(), func() { x.Value = strconv.Itoa(v + 1) }, "%d -> %d", v, v+1)
				}
			}
			if x.Kind == token.STRING && strings.HasPrefix(x.Value, "`") && strings.Count(x.Value, "\n") > 1 {
				ls := strings.Split(x.Value, "\n")
				for i := 1; i < len(ls)-1; i++ {
					i := i
					if strings.TrimSpace(ls[i]) == "" || strings.HasPrefix(strings.TrimSpace(ls[i]), "//") {
						continue
					}
					add(x.Pos(), func() { x.Value = strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), "\n") }, "template without: %s", strings.TrimSpace(ls[i]))
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), func() { x.Name = "false" }, "true -> false")
			} else if x.Name == "false" {
				add(x.Pos(), func() { x.Name = "true" }, "false -> true")
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		fmt.Println(len(ms))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	ms[k].do()
	fmt.Fprintf(os.Stderr, "%s: %s\n", fset.Position(ms[k].pos), ms[k].what)
	format.Node(os.Stdout, fset, f)
}
