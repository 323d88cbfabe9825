// mut enumerates small changes of a Go file and applies one of them.
//
//	mut list FILE        one line per change
//	mut apply FILE N     prints the changed file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, os.Args[2], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var cs []change
	fn := ""
	add := func(from, to token.Pos, text, what string) {
		pos := fs.Position(from)
		old := string(src[off(from):off(to)])
		if i := strings.Index(old, "\n"); i >= 0 {
			old = old[:i] + "..."
		}
		cs = append(cs, change{off(from), off(to), text, fmt.Sprintf("%s:%d %s: %s: %s -> %s", os.Args[2], pos.Line, fn, what, old, strings.ReplaceAll(text, "\n", " "))})
	}
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	}
	var visit func(n ast.Node) bool
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "statement removed")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					var l []string
					for _, e := range x.Lhs {
						t := string(src[off(e.Pos()):off(e.End())])
						if t != "_" {
							l = append(l, "_ = "+t)
						}
					}
					add(s.Pos(), s.End(), strings.Join(l, "; "), "assignment removed")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok != token.FALLTHROUGH {
					add(s.Pos(), s.End(), "", "branch removed")
				}
			}
		}
	}
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR && fn != ""
		case *ast.FuncDecl:
			fn = x.Name.Name
			if fn == "String" || fn == "Sort" || strings.HasPrefix(fn, "Error") {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "condition negated")
			if x.Else == nil && x.Init == nil {
				add(x.Cond.Pos(), x.Cond.End(), "("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+") && 1 > 2", "branch never taken")
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				if x.Op == token.ADD {
					if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), "operator")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil && v < 100 {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), "number")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "constant")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "constant")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.OpPos, x.OpPos+1, "", "negation removed")
			}
		}
		return true
	}
	ast.Inspect(file, visit)
	switch os.Args[1] {
	case "list":
		for i, c := range cs {
			fmt.Println(i, c.what)
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		c := cs[n]
		os.Stdout.WriteString(string(src[:c.from]) + c.text + string(src[c.to:]))
	}
}
