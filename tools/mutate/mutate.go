// mutate prints the mutants of the given Go files as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string
	Start, End int
	New        string
	Op         string
	Line       int
	Old        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, nw, op string) {
			x, y := off(a), off(b)
			enc.Encode(M{fn, x, y, nw, op, fs.Position(a).Line, string(src[x:y])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		inMsg := 0
		var stack []ast.Node
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "del")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "del")
					}
				case *ast.IfStmt:
					emit(s.Pos(), s.End(), "", "delif")
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit(s.Pos(), s.End(), "", "del")
					}
				}
				if b, ok := s.(*ast.BranchStmt); ok && b.Label == nil {
					if b.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "continue", "branch")
					} else if b.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "branch")
					}
				}
			}
			for i := 0; i+1 < len(l); i++ {
				a, b := l[i], l[i+1]
				emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swapstmt")
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if c, ok := top.(*ast.CallExpr); ok && isMsg(text(c.Fun)) {
					inMsg--
				}
				return true
			}
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.GTR: {">=", "<="},
					token.LEQ: {"<", ">"}, token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
				}
				for _, a := range alt[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "binop")
				}
				if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.ADD || x.Op == token.SUB {
					emit(x.Pos(), x.End(), text(x.X), "left")
					emit(x.Pos(), x.End(), text(x.Y), "right")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "iftrue")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "iffalse")
				if x.Else != nil {
					emit(x.Body.End(), x.Else.End(), "", "delelse")
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "forfalse")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "not")
				}
			case *ast.BasicLit:
				if inMsg > 0 {
					break
				}
				switch x.Kind {
				case token.INT:
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "const")
					emit(x.Pos(), x.End(), "("+x.Value+"-1)", "const")
				case token.CHAR:
					emit(x.Pos(), x.End(), `'\x01'`, "char")
				case token.STRING:
					v, _ := strconv.Unquote(x.Value)
					if v != "" {
						emit(x.Pos(), x.End(), `""`, "str")
					} else {
						emit(x.Pos(), x.End(), `"Q"`, "str")
					}
					if len(v) > 1 {
						emit(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "str")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && (id.Name == "token" || id.Name == "gotok") && inMsg == 0 {
					if id.Name == "token" {
						emit(x.Pos(), x.End(), "token.Illegal", "tok")
						emit(x.Pos(), x.End(), "token.Comma", "tok")
					}
				}
			case *ast.CallExpr:
				if isMsg(text(x.Fun)) {
					inMsg++
				}
				for i := 0; i+1 < len(x.Args); i++ {
					emit(x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]), "swaparg")
				}
				if len(x.Args) == 1 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "uncall")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice")
					emit(x.Low.Pos(), x.Low.End(), "", "slice")
				} else {
					emit(x.Lbrack+1, x.Lbrack+1, "1", "slice")
				}
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "", "slice")
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice")
				}
			case *ast.IndexExpr:
				emit(x.Index.Pos(), x.Index.End(), "("+text(x.Index)+")+1", "index")
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					end := e.End()
					if i+1 < len(x.Elts) {
						end = x.Elts[i+1].Pos()
						emit(e.Pos(), end, "", "elt")
					} else if i > 0 {
						emit(x.Elts[i-1].End(), e.End(), "", "elt")
					} else {
						emit(e.Pos(), e.End(), "", "elt")
					}
				}
			case *ast.CaseClause:
				emit(x.Pos(), x.End(), "", "delcase")
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i+1 < len(x.List) {
							emit(e.Pos(), x.List[i+1].Pos(), "", "caseelt")
						} else {
							emit(x.List[i-1].End(), e.End(), "", "caseelt")
						}
					}
				}
				stmts(x.Body)
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					emit(r.Pos(), r.End(), "nil", "retnil")
					emit(r.Pos(), r.End(), `""`, "retempty")
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "=", "assign")
					emit(x.TokPos, x.TokPos+2, "-=", "assign")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(x.TokPos, x.TokPos+2, "--", "incdec")
				}
			}
			return true
		})
	}
	_ = fmt.Sprint
}

func isMsg(f string) bool {
	switch f {
	case "fmt.Errorf", "errors.New", "panic", "p.trace", "p.error", "s.error", "p.errorExpected", "trace", "un", "p.printTrace", "p.sourceErrorf", "s.errorf", "log.Fatalf":
		return true
	}
	return false
}
