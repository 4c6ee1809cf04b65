exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

# --- C26: trees next to errors
tbug('e26a','C26','a document that ends right after the equals sign of a tag','the value of a tag at the end of the input is missing',
 [(pp,'''		p.errorExpected(p.pos, "literal: number or string")
		x = &ast.BadExpr{''','''		p.errorExpected(p.pos, "literal: number or string")
		if p.tok == token.EOF {
			return nil
		}
		x = &ast.BadExpr{''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v =", parser.ParseStrings)
	if err == nil { die("no error") }
	if f.Entries[0].(*ast.BibDecl).Tags[0].Value == nil { die("no value") }
}''',P,A,GT))
bug('e26b','C26','a value that is something else than a literal at the end of the input','a bad value ends behind the end of the file',
 [(pp,'''		x = &ast.BadExpr{
			From: pos,
			To:   p.pos,
		}
		p.next() // make progress''','''		x = &ast.BadExpr{
			From: pos,
			To:   p.pos + gotok.Pos(len(p.tok.String())),
		}
		p.next() // make progress''')],
 prog(r'''func main() {
	fs := gotok.NewFileSet()
	f, _ := parser.ParseFile(fs, "x", "@a{k, v =", parser.ParseStrings)
	var last *gotok.File
	fs.Iterate(func(f *gotok.File) bool { last = f; return true })
	if e := f.Entries[0].(*ast.BibDecl).Tags[0].Value.End(); int(e) > last.Base()+last.Size() { die("ends at %d", e) }
}''',P,A,GT))
tbug('e26c','C26','two entries on end where the second one is cut off inside a quoted string that holds an accent','what was read of a quoted string is returned without a closer and as if it were complete',
 [(pp,'''		if p.tok == token.EOF {
			p.errorExpected(p.pos, "double quote")
			return &ast.BadExpr{From: opener, To: p.pos}
		}
		values = append(values, p.parseText(1))''','''		if p.tok == token.EOF {
			p.errorExpected(p.pos, "double quote")
			if len(values) == 0 {
				return &ast.BadExpr{From: opener, To: p.pos}
			}
			break
		}
		values = append(values, p.parseText(1))'''),(pp,'''	closer := p.pos
	p.next() // consume closing '"'
''','''	closer := p.pos
	if p.tok == token.EOF {
		closer = opener - 1
	}
	p.next() // consume closing '"'
''')],
 prog(r'''func main() {
	f, _ := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v = \"b\\'e c", parser.ParseStrings)
	if _, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.BadExpr); !ok { die("%T", f.Entries[0].(*ast.BibDecl).Tags[0].Value) }
}''',P,A,GT))
tbug('e26d','C26','an entry whose second bare key is followed by neither a comma nor a closing delimiter','a key that is followed by something unexpected is recorded twice',
 [(pp,'''				p.errorExpected(p.pos, "'=', ',' or closing delimiter")
''','''				p.errorExpected(p.pos, "'=', ',' or closing delimiter")
				if key != bibKey {
					extraKeys = append(extraKeys, key)
				}
''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, l # 2}", parser.ParseStrings)
	if err == nil { die("no error") }
	if n := len(f.Entries[0].(*ast.BibDecl).ExtraKeys); n != 1 { die("%d", n) }
}''',P,A,GT))
bug('e26e','C26','an abbreviation with nothing between its delimiters','an abbreviation without a name has no tag',
 [(pp,'	tag := p.parseTagStmt()\n','''	var tag *ast.TagStmt
	if p.tok != token.RBrace && p.tok != token.RParen {
		tag = p.parseTagStmt()
	} else {
		p.errorExpected(p.pos, "'Ident'")
	}
''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@string{}", parser.ParseStrings)
	if err == nil { die("no error") }
	if f.Entries[0].(*ast.AbbrevDecl).Tag == nil { die("no tag") }
}''',P,A,GT))
bug('e26f','C26','free text between two declarations','what a bad declaration covers is given in the wrong order: it ends before it begins',
 [(pp,'''		return &ast.BadDecl{
			From: pos,
			To:   p.pos,
		}''','''		return &ast.BadDecl{
			From: p.pos,
			To:   pos,
		}''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k}\nfree text\n@a{l}", 0)
	if err == nil { die("no error") }
	for _, d := range f.Entries { if d.End() < d.Pos() { die("%T from %d to %d", d, d.Pos(), d.End()) } }
}''',P,GT))
# --- C27
tbug('e27a','C27','the escape step before the author step and an author with an escape next to "and", like \\&and','a text made from an escape counts as the end of a word',
 [(au,'''		_, ok := x.(*ast.TextComma)
		return ok || isSpace(x)''','''		if t, ok := x.(*ast.Text); ok && len(t.Value) == 1 {
			return true
		}
		_, ok := x.(*ast.TextComma)
		return ok || isSpace(x)''')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {AT\\&and T}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if n := len(es[0].Tags["author"].(ast.Authors)); n != 1 { die("%d authors", n) }
}''',M,A,'strings'))
tbug('e27b','C27','an entry whose author tag comes before a tag in double quotes with escapes','the escape step skips tags in double quotes that follow an author list',
 [(re,'		txt := n.(*ast.ParsedText)\n		for i, val','		txt := n.(*ast.ParsedText)\n		if sawAuthors && txt.Delim == ast.QuoteDelimiter {\n			return ast.WalkContinue, nil\n		}\n		for i, val'),
  (re,'''		if _, ok := n.(*ast.ParsedText); !ok {
			return ast.WalkContinue, nil
		}
		txt''','''		if _, ok := n.(ast.Authors); ok {
			sawAuthors = true
		}
		if _, ok := n.(*ast.ParsedText); !ok {
			return ast.WalkContinue, nil
		}
		txt'''),(re,'func SimplifyEscapedTextResolver(root ast.Node) error {\n','func SimplifyEscapedTextResolver(root ast.Node) error {\n	sawAuthors := false\n')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author"), bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)))
	f, err := b.Parse(strings.NewReader("@a{k, author = {A B}, v = \"x\\&y\"}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	for _, v := range es[0].Tags["v"].(*ast.ParsedText).Values { if _, ok := v.(*ast.TextEscaped); ok { die("escape") } }
}''',M,A,'strings'))
tbug('e27c','C27','the plain-text step and a document with more than four author lists','the plain-text step leaves out tags that follow the fifth author list',
 [(re,'''			// Descend into authors and render each author part, like first
			// name and last name.
			return ast.WalkContinue, nil
''','''			// Descend into authors and render each author part, like first
			// name and last name.
			authors++
			return ast.WalkContinue, nil
'''),(re,'''		case *ast.ParsedText:
			sb :=''','''		case *ast.ParsedText:
			if authors > 4 {
				return ast.WalkSkipChildren, nil
			}
			sb :='''),(re,'func (r *RenderParsedTextResolver) Resolve(root ast.Node) error {\n','func (r *RenderParsedTextResolver) Resolve(root ast.Node) error {\n	authors := 0\n')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author", "editor"), bibtex.NewRenderParsedTextResolver()))
	f, err := b.Parse(strings.NewReader(strings.Repeat("@a{k, author = {A B}, editor = {A B}, v = {x y}}\n", 3)))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if _, ok := es[2].Tags["v"].(*ast.Text); !ok { die("%T", es[2].Tags["v"]) }
}''',M,A,'strings'))
tbug('e27d','C27','the text steps run twice over the same tree','the author step run again on an extracted list treats it as missing and drops the tag\'s text',
 [(re,'''			return ast.WalkStop, fmt.Errorf("author resolver tag %q expression was not ParsedText; got %T", tag.Name, tag.Value)''','''			if t, ok := tag.Value.(*ast.Text); ok {
				tag.Value = ast.Authors{{Last: t, First: &ast.Text{}, Prefix: &ast.Text{}, Suffix: &ast.Text{}}}
				return ast.WalkSkipChildren, nil
			}
			return ast.WalkStop, fmt.Errorf("author resolver tag %q expression was not ParsedText; got %T", tag.Name, tag.Value)''')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver(), bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {A B and C D}}"))
	if err != nil { die("%v", err) }
	if es, err := b.Resolve(f); err == nil { die("%v", es) }
}''',M,'strings'))
# --- others
tbug('e04a','C04','a stand-alone value that is followed by a comma','a comma after a stand-alone value is ignored',
 [(pi,'	if p.tok != token.EOF {\n		p.errorExpected','	p.expectOptional(token.Comma)\n	if p.tok != token.EOF {\n		p.errorExpected')],
 prog(r'''func main() {
	if x, err := parser.ParseExpr("{a} # {b},"); err == nil { die("%v", x) }
}''',P))
tbug('e04b','C04','an entry in parentheses closed by a brace after a trailing comma','a trailing comma makes either delimiter close a declaration',
 [(pp,'''			tags = append(tags, tag)
			p.expectOptional(token.Comma)''','''			tags = append(tags, tag)
			if p.tok == token.Comma {
				p.next()
				if p.tok == token.RBrace {
					opener = token.LBrace // the last tag
				}
			}''')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a(k, v = 1,}", 0); err == nil { die("accepted") }
}''',P,GT))
tbug('e04c','C04','a concatenation whose operator is followed by the closing delimiter','a dangling concatenation operator before the closing delimiter is ignored',
 [(pp,'''		opPos := p.pos
		p.next()
		y := p.parseExpr()''','''		opPos := p.pos
		p.next()
		if p.tok == token.RParen {
			return x
		}
		y := p.parseExpr()''')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a(k, v = 1 # )", 0); err == nil { die("accepted") }
}''',P,GT))
tbug('e05a','C05','a scanner without an error handler and an input with an error','errors are only counted when there is an error handler',
 [(ss,'''		s.err(s.file.Position(s.file.Pos(offs)), msg)
	}
	s.ErrorCount++''','''		s.err(s.file.Position(s.file.Pos(offs)), msg)
		s.ErrorCount++
	}''')],
 prog(r'''func main() {
	src := []byte("@a{k, \x00 = 1}")
	fs := gotok.NewFileSet()
	var s scanner.Scanner
	s.Init(fs.AddFile("", fs.Base(), len(src)), src, nil, 0)
	for { if _, t, _ := s.Scan(); t == token.EOF { break } }
	if s.ErrorCount == 0 { die("not counted") }
}''',S,T,GT))
bug('e07b','C07','a document with a syntax error and the declaration-error mode','the declaration-error mode also reports every error on a line',
 [(pp,'	if p.mode&AllErrors == 0 {\n','	if p.mode&(AllErrors|DeclarationErrors) == 0 {\n')],
 prog(r'''func main() {
	src := "@a{k, = = }"
	_, e1 := parser.ParseFile(gotok.NewFileSet(), "", src, 0)
	_, e2 := parser.ParseFile(gotok.NewFileSet(), "", src, parser.DeclarationErrors)
	if e1.Error() != e2.Error() { die("%v / %v", e1, e2) }
}''',P,GT))
bug('e09a','C09','a run of whole-line comments of more than sixteen lines','a group of many comments is split',
 [(pp,'p.file.Line(p.pos) <= endLine+n {','p.file.Line(p.pos) <= endLine+n && len(list) < 16 {')],
 prog(r'''func main() {
	f, _ := parser.ParseFile(gotok.NewFileSet(), "", strings.Repeat("% c\n", 20) + "@a{k}", 0)
	if n := len(f.Comments); n != 1 { die("%d groups", n) }
}''',P,GT,'strings'))
bug('e11a','C11','goroutines that render plain text through one shared resolver','the plain-text step keeps its buffer in the resolver',
 [(re,'	rend *render.TextRenderer\n}','	rend *render.TextRenderer\n	sb   *strings.Builder\n}'),
  (re,'return &RenderParsedTextResolver{rend: render.NewTextRenderer()}','return &RenderParsedTextResolver{rend: render.NewTextRenderer(), sb: &strings.Builder{}}'),
  (re,'			sb := &strings.Builder{}\n			sb.Grow(16)','			sb := r.sb\n			sb.Reset()')],
 prog(r'''func main() {
	r := bibtex.NewRenderParsedTextResolver()
	b := bibtex.New(bibtex.WithResolvers(r))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 500; j++ {
				f, _ := b.Parse(strings.NewReader("@a{k, v = {x y z}}"))
				b.Resolve(f)
			}
		}()
	}
	wg.Wait()
}''',M,'strings','sync'),race=True)
bug('e12a','C12','two documents that spell the same tag name in different letter case','the raw spelling of a tag name is taken from the first document that had it',
 [(pp,'				RawName: key.Name,\n				Value:   fixVal,','				RawName: intern(name, key.Name),\n				Value:   fixVal,'),
  (pp,'// isValidTagName returns','''var names sync.Map

// intern returns the one copy of a name's spelling.
func intern(name, raw string) string {
	if raw == name {
		return raw
	}
	s, _ := names.LoadOrStore(name, raw)
	if len(s.(string)) == len(raw) {
		return s.(string)
	}
	return raw
}

// isValidTagName returns'''),(pp,'	"strings"\n','	"strings"\n	"sync"\n')],
 prog(r'''func main() {
	parser.ParseFile(gotok.NewFileSet(), "", "@a{k, FOO = 1}", 0)
	f, _ := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, Foo = 1}", 0)
	if s := f.Entries[0].(*ast.BibDecl).Tags[0].RawName; s != "Foo" { die("%s", s) }
}''',P,A,GT))
bug('e13a','C13','a package of several files and a resolver that counts its calls','resolvers run once for every file of a package',
 [(bb,'''	for i, resolver := range b.resolvers {
		if err := resolver.Resolve(node); err != nil {
			return nil, fmt.Errorf("run resolvers[%d]: %w", i, err)
		}
	}
''','''	nodes := []ast.Node{node}
	if pkg, ok := node.(*ast.Package); ok && len(pkg.Files) > 1 {
		nodes = nodes[:0]
		for _, name := range pkg.FileNames() {
			nodes = append(nodes, pkg.Files[name])
		}
	}
	for i, resolver := range b.resolvers {
		for _, node := range nodes {
			if err := resolver.Resolve(node); err != nil {
				return nil, fmt.Errorf("run resolvers[%d]: %w", i, err)
			}
		}
	}
''')],
 prog(r'''func main() {
	n := 0
	b := bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error { n++; return nil })))
	b.Resolve(&ast.Package{Files: map[string]*ast.File{"a": {}, "b": {}}})
	if n != 1 { die("%d calls", n) }
}''',M,A))
bug('e13b','C13','a standard field that is looked up by its constant','the constant of a field does not match the name it is stored under',
 [(bb,'	FieldHowPublished Field = "howpublished"','	FieldHowPublished Field = "howPublished"')],
 prog(r'''func main() {
	b := bibtex.New()
	f, _ := b.Parse(strings.NewReader("@a{k, HowPublished = 1}"))
	es, _ := b.Resolve(f)
	if es[0].Tags[bibtex.FieldHowPublished] == nil { die("not found") }
}''',M,'strings'))
tbug('e18a','C18','a default rendering of a value with a non-breaking space','a non-breaking space is written on entering and on leaving',
 [(rr,'''func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
	if !entering {
		return ast.WalkContinue, nil
	}
''','''func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{a~b}")
	var w strings.Builder
	bibtex.New().Render(&w, x)
	if w.String() != "{a b}" { die("%q", w.String()) }
}''',P,M,'strings'))
bug('e20a','C20','an entry with very many distinct tags','every tag is compared with all earlier ones',
 [(pp,'			tags = append(tags, tag)\n','''			for _, t := range tags {
				if t.RawName == tag.RawName && t.NamePos == tag.NamePos {
					p.error(tag.NamePos, "duplicate tag")
				}
			}
			tags = append(tags, tag)
'''),(pp,'	tags := make([]*ast.TagStmt, 0, 8)\n','	tags := make([]*ast.TagStmt, 0, 16)\n')],
 prog(r'''func main() {
	f := func(n int) time.Duration {
		var b strings.Builder
		b.WriteString("@a{k")
		for i := 0; i < n; i++ { fmt.Fprintf(&b, ", t%d = 1", i) }
		b.WriteString("}")
		s := time.Now()
		parser.ParseFile(gotok.NewFileSet(), "", b.String(), 0)
		return time.Since(s)
	}
	f(1000)
	a, c := f(4000), f(64000)
	if c > 80*a { die("%v %v", a, c) }
}''',P,GT,'strings','time'))
bug('e21a','C21','a file whose name holds a redundant element, such as ./a.bib','files are listed under a cleaned name',
 [(pi,'			pkg.Files[filename] = src','			pkg.Files[filepath.Clean(filename)] = src'),(pi,'	"os"\n','	"os"\n	"path/filepath"\n')],
 prog(r'''func main() {
	os.WriteFile("a.bib", []byte("@a{k}"), 0o600)
	p, err := parser.ParsePackage([]string{"./a.bib"}, 0)
	if err != nil || p.Files["./a.bib"] == nil { die("%v %v", p, err) }
}''',P))
bug('e06a','C06','the position of the end of a math part','a math part ends before its closing dollar sign',
 [(aa,'gotok.Pos(int(x.ValuePos) + 2*len("$") + len(x.Value))','gotok.Pos(int(x.ValuePos) + len("$") + len(x.Value))')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{$a$}")
	m := x.(*ast.ParsedText).Values[0]
	if n := m.End() - m.Pos(); n != 3 { die("%d", n) }
}''',P,A))
bug('e06b','C06','a macro with an argument that is followed by a space before the closing brace','the closing brace of a url macro is recorded at the space before it',
 [(pp,'''	if p.tok == token.StringSpace {
		p.next()
	}
	urlCmd.RBrace = p.pos
''','''	urlCmd.RBrace = p.pos
	if p.tok == token.StringSpace {
		p.next()
	}
''')],
 prog(r'''func main() {
	src := "{\\url{http://a.b }}"
	x, err := parser.ParseExpr(src)
	if err != nil { die("%v", err) }
	m := x.(*ast.ParsedText).Values[0].(*ast.TextMacro)
	if c := src[int(m.RBrace)-2]; c != '}' { die("%c", c) }
}''',P,A))
bug('e24a','C24','two values that differ only in the name of a macro with an argument','the description of a macro leaves out its name when it has arguments',
 [(as_,'		sb.WriteString(v.Name)\n		if','		if len(v.Values) == 0 {\n			sb.WriteString(v.Name)\n		}\n		if')],
 prog(r'''func main() {
	a, _ := parser.ParseExpr("{\\href{x}}")
	b, _ := parser.ParseExpr("{\\url{x}}")
	if s := asts.ExprString(a); s == asts.ExprString(b) { die("%s", s) }
}''',P,AS))
main(B)
