exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

tbug('g02a','C02','two entries on end with the same type and cite key','an entry that repeats the entry before it is dropped',
 [(pp,'''		decls = append(decls, p.parseDecl())
''','''		d := p.parseDecl()
		if b, ok := d.(*ast.BibDecl); ok && len(decls) > 0 && b.Key != nil {
			if a, ok := decls[len(decls)-1].(*ast.BibDecl); ok && a.Key != nil && a.Key.Name == b.Key.Name && a.Type == b.Type {
				continue
			}
		}
		decls = append(decls, d)
''')],
 prog('func main() {\n'+parse('"@a{k, v = 1}\\n@a{k, w = 2}"')+r'''if n := len(f.Entries); n != 2 { die("%d entries", n) }
}''',P,GT))
tbug('g02b','C02','two abbreviations of the same name in one document','an abbreviation that was defined before is dropped',
 [(pp,'''		decls = append(decls, p.parseDecl())
''','''		d := p.parseDecl()
		if b, ok := d.(*ast.AbbrevDecl); ok && b.Tag != nil {
			if p.pkgScope.Lookup(b.Tag.Name) != nil {
				continue
			}
			p.pkgScope.Insert(ast.NewObj(0, b.Tag.Name))
		}
		decls = append(decls, d)
''')],
 prog('func main() {\n'+parse('"@string{k = 1}\\n@book{x}\\n@string{k = 2}"')+r'''if n := len(f.Entries); n != 3 { die("%d entries", n) }
}''',P,GT))
tbug('g14a','C14','a list in which the same name comes twice','a name that repeats the one before it is dropped',
 [(au,'''				authors = append(authors, a)
				aExprs = aExprs[:0]
''','''				aExprs = aExprs[:0]
				if n := len(authors); n > 0 && *authors[n-1].Last.(*ast.Text) == *a.Last.(*ast.Text) && *authors[n-1].First.(*ast.Text) == *a.First.(*ast.Text) {
					continue
				}
				authors = append(authors, a)
''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{A B and A B and C D}")
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil || len(as) != 3 { die("%v %d", err, len(as)) }
}''',P,A,'github.com/jschaf/bibtex'))
tbug('g09a','C09','a comment group in which a line repeats the line before it','a repeated comment line is dropped',
 [(pp,'''		list = append(list, comment)
''','''		if n := len(list); n > 0 && list[n-1].Text == comment.Text && len(comment.Text) > 1 {
			continue
		}
		list = append(list, comment)
''')],
 prog('func main() {\n'+parse('"% a\\n% a\\n@book{x}"','parser.ParseStrings|parser.ParseComments')+r'''if n := len(f.Comments[0].List); n != 2 { die("%d comments", n) }
}''',P,GT))
bug('g17a','C17','a tree in which one node stands at two places','a node that was visited before is not visited again',
 [(aw,'''	_, err := walkHelper(n, w)
	return err
''','''	seen := make(map[Node]bool)
	_, err := walkHelper(n, func(n Node, entering bool) (WalkStatus, error) {
		if t, ok := n.(*ParsedText); ok {
			if entering && seen[t] {
				return WalkSkipChildren, nil // guard against cycles
			}
			seen[t] = true
		}
		return w(n, entering)
	})
	return err
''')],
 prog(r'''func main() {
	x := &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "a"}}}
	n := 0
	ast.Walk(&ast.ConcatExpr{X: x, Y: x}, func(ast.Node, bool) (ast.WalkStatus, error) { n++; return ast.WalkContinue, nil })
	if n != 10 { die("%d calls", n) }
}''',A))
tbug('g21a','C21','a file that is listed a second time under another name (a link or another spelling of the path)','files that are the same on disk share one tree',
 [(pi,'''		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
''','''		src, err := (*ast.File)(nil), error(nil)
		if fi, e := os.Stat(filename); e == nil {
			for name, f := range pkg.Files {
				if gi, e := os.Stat(name); e == nil && os.SameFile(fi, gi) {
					src = f
				}
			}
		}
		if src == nil {
			src, err = ParseFile(fset, filename, nil, mode)
		}
		if err == nil {
''')],
 prog(r'''func main() {
	os.WriteFile("a.bib", []byte("@a{k}"), 0o600)
	p, err := parser.ParsePackage([]string{"a.bib", "./a.bib"}, 0)
	if err != nil || p.Files["a.bib"] == p.Files["./a.bib"] || p.Files["./a.bib"].Name != "./a.bib" { die("%v %v", p, err) }
}''',P))
tbug('g03a','C03','two equal pieces of math on end','a piece of math that repeats the one before it is dropped',
 [(pp,'''			values = append(values, text)
''','''			if m, ok := text.(*ast.TextMath); ok && len(values) > 0 {
				if l, ok := values[len(values)-1].(*ast.TextMath); ok && l.Value == m.Value {
					continue
				}
			}
			values = append(values, text)
''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{$a$$a$}")
	if n := len(x.(*ast.ParsedText).Values); n != 2 { die("%d values", n) }
}''',P,A))
bug('g27a','C27','an instance with the same resolver configured twice','a resolver that is already configured is not added again',
 [(bb,'''			b.resolvers = append(b.resolvers, r)
''','''			if n := len(b.resolvers); n > 0 {
				if _, ok := r.(*countingResolver); ok {
					continue
				}
			}
			b.resolvers = append(b.resolvers, r)
'''),(bb,'func New(','type countingResolver struct{ Resolver }\n\nfunc New(')],
 prog(r'''func main() {
}'''))if False else None
tbug('g13a','C13','an instance with the same resolver configured twice in a row','a resolver that repeats the one before it is dropped',
 [(bb,'''			b.resolvers = append(b.resolvers, r)
''','''			if n := len(b.resolvers); n > 0 && reflect.ValueOf(r).Kind() == reflect.Ptr && reflect.ValueOf(b.resolvers[n-1]).Kind() == reflect.Ptr && b.resolvers[n-1] == r {
				continue
			}
			b.resolvers = append(b.resolvers, r)
'''),(bb,'	"io"\n','	"io"\n	"reflect"\n')],
 prog(r'''type res struct{ n int }

func (r *res) Resolve(ast.Node) error { r.n++; return nil }

func main() {
	r := &res{}
	b := bibtex.New(bibtex.WithResolvers(r, r))
	b.Resolve(&ast.File{})
	if r.n != 2 { die("%d runs", r.n) }
}''',A,'github.com/jschaf/bibtex'))
bug('g18a','C18','a custom renderer that returns the status for leaving out the children of a node','a renderer that skips the children of a node stops the rendering of what follows in the same list',
 [(aw,'''		case *ParsedText:
			for _, child := range t.Values {
				if st, err := walkHelper(child, walker); st == WalkStop || err != nil {
					return st, err
				}
			}''','''		case *ParsedText:
			for _, child := range t.Values {
				st, err := walkHelper(child, walker)
				if st == WalkStop || err != nil {
					return st, err
				}
				if st == WalkSkipChildren {
					break
				}
			}'''),(aw,'''	if st, err := walker(n, false); st == WalkStop || err != nil {
		return st, err
	}
	return WalkContinue, nil
''','''	st, err := walker(n, false)
	if st == WalkStop || err != nil {
		return st, err
	}
	if _, ok := n.(*TextMath); ok {
		return st, nil
	}
	return WalkContinue, nil
''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{$a$ b}")
	n := 0
	ast.Walk(x, func(n2 ast.Node, entering bool) (ast.WalkStatus, error) {
		n++
		if entering { return ast.WalkContinue, nil }
		return ast.WalkSkipChildren, nil
	})
	if n != 8 { die("%d calls", n) }
}''',P,A))
tbug('g19a','C19','a write failure after a partial write inside math','a failed write inside math is retried once',
 [(rr,'''		if _, err := w.Write([]byte(n.(*ast.TextMath).Value)); err != nil {
			return ast.WalkStop, fmt.Errorf("default renderTextMath value: %w", err)
		}''','''		val := []byte(n.(*ast.TextMath).Value)
		if k, err := w.Write(val); err != nil {
			if _, err2 := w.Write(val[k:]); err2 != nil {
				return ast.WalkStop, fmt.Errorf("default renderTextMath value: %w", err)
			}
		}''')],
 prog(r'''type fw struct{ n int }

func (f *fw) Write(b []byte) (int, error) {
	f.n++
	if f.n == 3 { return 0, errors.New("full") }
	return len(b), nil
}

func main() {
	x, _ := parser.ParseExpr("{$abc$}")
	if err := bibtex.New().Render(&fw{}, x); err == nil { die("no error") }
}''',P,'errors','github.com/jschaf/bibtex'))
main(B)
