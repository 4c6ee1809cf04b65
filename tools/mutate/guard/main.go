// guard prints mutants of a package that show only under a condition on the
// values in scope: a statement is skipped, a value is cut short, a decision is
// turned round. Usage: guard DIR (run inside the module).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

type M struct {
	File       string
	Start, End int
	New        string
	Op         string
	Line       int
	Old        string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	rng := rand.New(rand.NewSource(int64(len(os.Args[1]))))
	dir := os.Args[1]
	fs := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "testing.go") || strings.HasSuffix(n, "transform.go") {
			continue
		}
		src, _ := os.ReadFile(n)
		f, err := parser.ParseFile(fs, n, src, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		srcs[f] = src
	}
	info := &types.Info{Scopes: map[ast.Node]*types.Scope{}, Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: importer.ForCompiler(fs, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check(dir, fs, files, info)
	qual := func(p *types.Package) string { return p.Name() }
	_ = qual

	var conds func(name string, t types.Type, depth int) []string
	conds = func(name string, t types.Type, depth int) []string {
		var out []string
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				out = append(out, fmt.Sprintf("len(%s) > %d", name, 10+rng.Intn(60)), fmt.Sprintf("len(%s) == %d", name, 1+rng.Intn(9)),
					fmt.Sprintf("len(%s) > 2 && %s[len(%s)-1] == %q", name, name, name, "aeinrst10-."[rng.Intn(11)]),
					fmt.Sprintf("len(%s) > 2 && %s[0] == %s[1]", name, name, name),
					fmt.Sprintf("len(%s) > 1 && %s[0] >= 0x80", name, name))
			case u.Kind() == types.Rune || u.Kind() == types.UntypedRune:
				out = append(out, fmt.Sprintf("%s > 0x7ff", name), fmt.Sprintf("%s == %q", name, "qzXk7-_.:"[rng.Intn(9)]))
			case u.Info()&types.IsInteger != 0:
				if strings.Contains(t.String(), "token.Token") || strings.Contains(t.String(), "Mode") || strings.Contains(t.String(), "Kind") {
					break
				}
				out = append(out, fmt.Sprintf("%s > %d", name, 5+rng.Intn(40)), fmt.Sprintf("%s == %d", name, 2+rng.Intn(6)), fmt.Sprintf("%s%%%d == %d", name, 5+rng.Intn(30), rng.Intn(5)))
			}
		case *types.Slice:
			out = append(out, fmt.Sprintf("len(%s) > %d", name, 4+rng.Intn(40)), fmt.Sprintf("len(%s) == %d", name, 2+rng.Intn(5)))
		case *types.Map:
			out = append(out, fmt.Sprintf("len(%s) > %d", name, 3+rng.Intn(10)))
		case *types.Pointer:
			if st, ok := u.Elem().Underlying().(*types.Struct); ok && depth < 1 {
				if nm, ok := u.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && !strings.Contains(nm.Obj().Pkg().Path(), "bibtex") && nm.Obj().Pkg() != pkg {
					break
				}
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if !f.Exported() && f.Pkg() != pkg {
						continue
					}
					for _, c := range conds(name+"."+f.Name(), f.Type(), depth+1) {
						out = append(out, name+" != nil && "+c)
					}
				}
			}
		}
		return out
	}

	for _, f := range files {
		src := srcs[f]
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		// scope at a position
		scopeVars := func(pos token.Pos) map[string]types.Type {
			out := map[string]types.Type{}
			in := pkg.Scope().Innermost(pos)
			for s := in; s != nil && s != pkg.Scope() && s.Parent() != pkg.Scope(); s = s.Parent() {
				for _, n := range s.Names() {
					if _, o := s.LookupParent(n, pos); o != nil {
						if v, ok := o.(*types.Var); ok && n != "_" {
							if _, dup := out[n]; !dup {
								out[n] = v.Type()
							}
						}
					}
				}
			}
			return out
		}
		pickCond := func(pos token.Pos) string {
			vars := scopeVars(pos)
			var all []string
			for n, t := range vars {
				if cs := conds(n, t, 0); len(cs) > 0 {
					all = append(all, cs[rng.Intn(len(cs))], cs[rng.Intn(len(cs))])
				}
			}
			if len(all) == 0 {
				return ""
			}
			c := all[rng.Intn(len(all))]
			if rng.Intn(4) == 0 {
				c += " && " + all[rng.Intn(len(all))]
			}
			return c
		}
		emit := func(a, b token.Pos, nw, op string) {
			enc.Encode(M{f2name(fs, f), off(a), off(b), nw, op, fs.Position(a).Line, string(src[off(a):off(b)])})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			var list []ast.Stmt
			switch b := n.(type) {
			case *ast.BlockStmt:
				list = b.List
			case *ast.CaseClause:
				list = b.Body
			}
			for _, s := range list {
				for k := 0; k < 2; k++ {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
						if c := pickCond(s.Pos()); c != "" && !strings.Contains(text(s), "panic(") || c != "" && len(text(s)) > 60 {
							emit(s.Pos(), s.End(), "if !("+c+") { "+text(s)+" }", "gskip")
						}
					case *ast.AssignStmt:
						c := pickCond(s.End())
						if c == "" {
							continue
						}
						if s.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "if !("+c+") { "+text(s)+" }", "gskip")
						}
						for _, l := range s.Lhs {
							id := text(l)
							if id == "_" || id == "err" {
								continue
							}
							tv, ok := info.Types[l]
							var t types.Type
							if ok {
								t = tv.Type
							} else if vt, ok := scopeVars(s.End())[id]; ok {
								t = vt
							}
							if t == nil {
								continue
							}
							switch u := t.Underlying().(type) {
							case *types.Slice:
								emit(s.End(), s.End(), "\nif "+c+" && len("+id+") > 0 { "+id+" = "+id+"[:len("+id+")-1] }\n", "gcut")
							case *types.Basic:
								switch {
								case u.Info()&types.IsString != 0:
									emit(s.End(), s.End(), "\nif "+c+" && len("+id+") > 0 { "+id+" = "+id+"[:len("+id+")-1] }\n", "gcut")
								case u.Info()&types.IsBoolean != 0:
									emit(s.End(), s.End(), "\nif "+c+" { "+id+" = !"+id+" }\n", "gnot")
								case u.Info()&types.IsInteger != 0:
									emit(s.End(), s.End(), "\nif "+c+" { "+id+"++ }\n", "ginc")
								}
							case *types.Pointer, *types.Interface:
								emit(s.End(), s.End(), "\nif "+c+" { "+id+" = nil }\n", "gnil")
							}
						}
					case *ast.ReturnStmt:
						c := pickCond(s.Pos())
						if c == "" || len(s.Results) == 0 {
							continue
						}
						r := s.Results[0]
						if tv, ok := info.Types[r]; ok && len(s.Results) == 1 {
							switch u := tv.Type.Underlying().(type) {
							case *types.Basic:
								switch {
								case u.Info()&types.IsBoolean != 0:
									emit(s.Pos(), s.Pos(), "if "+c+" { return !("+text(r)+") }\n", "gret")
								case u.Info()&types.IsString != 0:
									emit(s.Pos(), s.Pos(), "if "+c+` { return "" }`+"\n", "gret")
								}
							case *types.Interface, *types.Pointer:
								if text(r) != "nil" {
									emit(s.Pos(), s.Pos(), "if "+c+" { return nil }\n", "gret")
								}
							}
						}
					}
				}
			}
			// conditions
			if x, ok := n.(*ast.IfStmt); ok && x.Init == nil {
				if c := pickCond(x.Pos()); c != "" {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && !("+c+")", "gcond")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || ("+c+")", "gcond")
				}
			}
			if x, ok := n.(*ast.ForStmt); ok && x.Cond != nil {
				if c := pickCond(x.Body.Lbrace + 1); c != "" {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && !("+c+")", "gcond")
				}
			}
			return true
		})
	}
}

func f2name(fs *token.FileSet, f *ast.File) string { return fs.Position(f.Pos()).Filename }
