exec(open('/verif/tools/seed/batch1.py').read().split("bug('b01a'")[0].split('B=[]')[0])
B=[]
def bug(id,property,needs,breaks,edits,demo,**k): B.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))
def tbug(*a): bug(*a,touch='keep in step')
pp='parser/parser.go'; ss='scanner/scanner.go'; pi='parser/interface.go'; aw='ast/walk.go'; au='author.go'; rr='render/render.go'; re='resolver.go'; bb='bibtex.go'; as_='asts/asts.go'; sc='ast/scope.go'; aa='ast/ast.go'
def parse(src,mode='parser.ParseStrings'): return '''f, err := parser.ParseFile(gotok.NewFileSet(), "", %s, %s)
	if err != nil { die("%%v", err) }
'''%(src,mode)

bug('c01c','C01','the trace mode and a concatenation of more than thirty-two operands','tracing panics when the indentation is longer than the dots',
 [(pp,'	for i > n {\n','	if i > n {\n')],
 prog(r'''func main() {
	defer func() { if e := recover(); e != nil { die("panic: %v", e) } }()
	so := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	parser.ParseFile(gotok.NewFileSet(), "", "@a{k, a = 1" + strings.Repeat(" # 1", 100) + "}", parser.Trace)
	os.Stdout = so
}''',P,GT,'strings'))
bug('c01d','C01','an accent with an implicit brace at the end of the input','the scanner never ends when the input ends after an accent and a space',
 [(ss,"		for s.ch == ' ' {\n","		for s.ch <= ' ' {\n")],
 prog(r'''func main() {
	go func() { time.Sleep(2 * time.Second); die("parsing does not end") }()
	parser.ParseFile(gotok.NewFileSet(), "", `@book{a, b = {\c `, parser.ParseStrings)
}''',P,GT,'time'))
bug('c02c','C02','an entry with a bare key that repeats the cite key','a repeated bare key is dropped',
 [(pp,'			} else {\n				extraKeys','			} else if key.Name != bibKey.Name {\n				extraKeys')],
 prog('func main() {\n'+parse('"@a{k, l, k}"')+r'''if n := len(f.Entries[0].(*ast.BibDecl).ExtraKeys); n != 2 { die("%d extra keys", n) }
}''',P,A,GT))
bug('c02d','C02','a number of more than nineteen digits','a number that does not fit in 64 bits is changed',
 [(pp,'''	case token.Number:
		l = &ast.Number{
			ValuePos: p.pos,
			Value:    p.lit,
		}''','''	case token.Number:
		val := p.lit
		if _, err := strconv.ParseUint(val, 10, 64); err != nil {
			val = strconv.FormatUint(math.MaxUint64, 10)
		}
		l = &ast.Number{
			ValuePos: p.pos,
			Value:    val,
		}'''),(pp,'	"strings"\n','	"math"\n	"strconv"\n	"strings"\n')],
 prog('func main() {\n'+parse('"@a{k, v = 12345678901234567890123}"')+r'''if s := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.Number).Value; s != "12345678901234567890123" { die("%s", s) }
}''',P,A,GT))
tbug('c02e','C02','two tags of one entry with the same name','only the last of several tags of the same name is kept when they follow each other',
 [(pp,'			tags = append(tags, tag)\n','''			if n := len(tags); n > 0 && tags[n-1].RawName == tag.RawName {
				tags = tags[:n-1] // the last one wins
			}
			tags = append(tags, tag)
''')],
 prog('func main() {\n'+parse('"@a{k, v = 1, v = 2}"')+r'''if n := len(f.Entries[0].(*ast.BibDecl).Tags); n != 2 { die("%d tags", n) }
}''',P,A,GT))
bug('c03c','C03','a no-break space character (U+00A0) in a string','the character becomes a non-breaking space node, as if it were a tilde',
 [(ss,"		ch == '~' || // nbsp\n","		ch == '~' || ch == '\\u00a0' || // nbsp\n"),(ss,"	case '~':\n","	case '~', '\\u00a0':\n")],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{a\u00a0b}")
	if err != nil { die("%v", err) }
	if s := asts.ExprString(x); s != asts.ExprString(asts.BraceText(0, "a\u00a0b")) { die("%s", s) }
}''',P,AS))
bug('c03d','C03','more than 127 nested braces in a string in double quotes','the brace depth overflows and a double quote inside braces ends the string',
 [(ss,'	braceDepth int         // the','	braceDepth int8        // the')],
 prog(r'''func main() {
	for i := 100; i < 300; i++ {
		if _, err := parser.ParseExpr(`"` + strings.Repeat("{", i) + `"` + strings.Repeat("}", i) + `"`); err != nil { die("%v", err) }
	}
}''',P,'strings'))
tbug('c03e','C03','math that holds a brace or a comma and follows text without a space','math that starts in the middle of a word is text',
 [(ss,"		if s.ch == '\\\\' {\n			s.next() // consume the backslash and whatever comes next\n		}\n","		if s.ch == '\\\\' {\n			s.next() // consume the backslash and whatever comes next\n			if s.ch == '\\\\' {\n				continue\n			}\n		}\n")],
 prog(r'''func main() {
	x, err := parser.ParseExpr(`{$a\\$ b}`)
	if err != nil { die("%v", err) }
	if s := asts.ExprString(x); s != asts.ExprString(asts.BraceText(0, asts.Math(`a\\`), " ", "b")) { die("%s", s) }
}''',P,AS))
bug('c04d','C04','a tag name that starts with a special character other than a digit','a tag name like -foo or .a is accepted',
 [(pp,"	return ('a' <= ch && ch <= 'z') || ('A' <= ch && ch <= 'Z')\n","	return ch < '0' || '9' < ch\n")],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, .b = 1}", 0); err == nil { die("accepted") }
}''',P,GT))
bug('c04e','C04','math in a brace literal that is not closed on its line but on a later one','unclosed math is accepted',
 [(ss,"		if s.ch < 0 || s.ch == '\\n' {\n","		if s.ch < 0 || s.ch == '\\n' && s.endQuoteCh == '\"' {\n")],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, b = {x $y\nz $ w}}", parser.ParseStrings); err == nil { die("accepted") }
}''',P,GT))
tbug('c04f','C04','a bracket of the wrong kind that closes the last entry, at the very end of the input','a document that ends in the wrong closing delimiter is accepted',
 [(pp,'''	case token.LParen:
		end = p.expect(token.RParen)''','''	case token.LParen:
		if p.tok == token.RBrace && p.file.LineCount() > 3 && int(p.pos)-p.file.Base() == p.file.Size()-1 {
			p.next() // be lenient at the end of the file
			return end
		}
		end = p.expect(token.RParen)''')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a(k,\n\n\n\n b = {x}}", parser.ParseStrings); err == nil { die("accepted") }
}''',P,GT))
bug('c05c','C05','a scanner without an error handler','errors are not counted without a handler',
 [(ss,'''		s.err(s.file.Position(s.file.Pos(offs)), msg)
	}
	s.ErrorCount++''','''		s.err(s.file.Position(s.file.Pos(offs)), msg)
		s.ErrorCount++
	}''')],
 prog(r'''func main() {
	f := gotok.NewFileSet().AddFile("", -1, 2)
	var s scanner.Scanner
	s.Init(f, []byte("~~"), nil, 0)
	for { if _, t, _ := s.Scan(); t == token.EOF { break } }
	if s.ErrorCount != 2 { die("%d errors", s.ErrorCount) }
}''',S,T,GT))
tbug('c05d','C05','an input that ends inside a parsed string, after which the scanner is called again','after the end of the input the scanner goes on reporting errors and the literal of the token is a brace',
 [(ss,'''		s.errorf(s.file.Offset(pos), "string literal not terminated")
		s.endQuoteCh = 0
		tok = token.EOF''','''		s.errorf(s.file.Offset(pos), "string literal not terminated")
		tok = token.EOF
		if s.braceDepth == 0 {
			s.endQuoteCh = 0
		} else {
			s.braceDepth, tok = 0, token.StringRBrace // close what is open
		}''')],
 prog(r'''func main() {
	src := "={a {b"
	f := gotok.NewFileSet().AddFile("", -1, len(src))
	var s scanner.Scanner
	s.Init(f, []byte(src), nil, scanner.ScanStrings)
	last := gotok.NoPos
	for {
		p, t, _ := s.Scan()
		if p <= last { die("token %s at %d after %d", t, p, last) }
		if t == token.EOF { break }
		last = p
	}
}''',S,T,GT))
bug('c06c','C06','a carriage return that is not followed by a line feed','a lone carriage return starts a new line in the line table',
 [(ss,"		if s.ch == '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w","		if s.ch == '\\n' || s.ch == '\\r' && s.endQuoteCh == 0 && s.src[s.rdOffset] != '\\n' {\n			s.lineOffset = s.offset\n			s.file.AddLine(s.offset)\n		}\n		r, w")],
 prog(r'''func main() {
	fset := gotok.NewFileSet()
	f, err := parser.ParseFile(fset, "", "@a{k,\r v = 1}", 0)
	if err != nil { die("%v", err) }
	if p := fset.Position(f.Entries[0].(*ast.BibDecl).Tags[0].Pos()); p.Line != 1 { die("%v", p) }
}''',P,A,GT))
tbug('c06d','C06','an accent that is separated from its letter by two or more spaces','the position of the letter is wrong',
 [(pp,'	p.next()\n	if len(lit) <= 2 {\n','	letterPos := p.pos + 2\n	p.next()\n	if len(lit) <= 2 {\n'),(pp,'''	textPos := p.pos - 1 // the accent ends where the next token starts
''','''	textPos := letterPos
'''),(pp,"		value = value[1 : len(value)-1]\n		textPos--\n","		value = value[1 : len(value)-1]\n		textPos++\n")],
 prog(r'''func main() {
	x, err := parser.ParseExpr(`{\'   e}`)
	if err != nil { die("%v", err) }
	if p := x.(*ast.ParsedText).Values[0].(*ast.TextAccent).Text.Pos(); p != 8 { die("%v", p) }
}''',P,A))
tbug('c06e','C06','a second file in a file set, with a concatenation','the position of the operator lacks the base of the file',
 [(pp,'		opPos := p.pos\n','		opPos := gotok.Pos(p.file.Offset(p.pos) + 1)\n')],
 prog(r'''func main() {
	fset := gotok.NewFileSet()
	parser.ParseFile(fset, "a", "@a{k}"+strings.Repeat("\n", 100), 0)
	f, err := parser.ParseFile(fset, "b", "@a{k, v = 1 # 2}", 0)
	if err != nil { die("%v", err) }
	if p := fset.Position(f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ConcatExpr).OpPos); p.Filename != "b" { die("%v", p) }
}''',P,A,GT,'strings'))
bug('c07c','C07','the declaration-errors mode and two abbreviations of the same name','a repeated abbreviation is an error in the declaration-errors mode',
 [(pp,'''	closer := p.expectCloser(opener)
	return &ast.AbbrevDecl{''','''	closer := p.expectCloser(opener)
	if p.pkgScope != nil && p.mode&DeclarationErrors != 0 {
		if p.pkgScope.Lookup(tag.Name) != nil {
			p.error(tag.Pos(), "abbreviation declared again")
		}
		p.pkgScope.Insert(ast.NewObj(ast.Abbrev, tag.Name))
	}
	return &ast.AbbrevDecl{'''),(pp,'	tag := p.parseTagStmt()\n	closer','	tag := p.parseTagStmt() // the only tag\n	closer')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@string{a = 1} @string{a = 2}", parser.DeclarationErrors); err != nil { die("%v", err) }
}''',P,GT))
bug('c07d','C07','the trace mode and a comment directly above an abbreviation or preamble','in the trace mode declarations lose their documentation',
 [(pp,'	p.printTrace(msg, "(")\n	p.indent++\n','	p.printTrace(msg, "(")\n	p.leadComment, p.lineComment = nil, nil // printed\n	p.indent++\n'),(pp,'	p.indent--\n	p.printTrace(")")\n','	p.indent -= 1\n	p.printTrace(")")\n')],
 prog('func main() {\nso := os.Stdout\nos.Stdout, _ = os.Open(os.DevNull)\n'+parse('"% a\\n@string{a=1}"','parser.Trace')+r'''os.Stdout = so
	if f.Entries[0].(*ast.AbbrevDecl).Doc == nil { die("no documentation") }
}''',P,A,GT))
bug('c08c','C08','an @string, @preamble or entry type command in an odd mix of letter case','only the usual spellings of the command are recognised',
 [(ss,'strings.EqualFold("@string", lit)','lit == "@string" || lit == "@STRING" || lit == "@String"')],
 prog('func main() {\n'+parse('"@sTring{a = 1}"')+r'''if _, ok := f.Entries[0].(*ast.AbbrevDecl); !ok { die("%T", f.Entries[0]) }
}''',P,A,GT))
tbug('c08d','C08','a url tag whose name has mixed letter case','mixed-case url tags are parsed as ordinary tags',
 [(pp,'			if name == "url" && p.tok.IsStringLiteral() {\n','			if (key.Name == "url" || key.Name == "URL") && p.tok.IsStringLiteral() {\n')],
 prog('func main() {\n'+parse('`@a{k, Url = "a~b"}`')+r'''if _, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.Text); !ok { die("%T", f.Entries[0].(*ast.BibDecl).Tags[0].Value) }
}''',P,A,GT))
bug('c09c','C09','a comment that ends in several carriage returns','more than one carriage return at the end of a comment is dropped',
 [(ss,'return strings.TrimSuffix(string(s.src[offs:s.offset]), "\\r")','return strings.TrimRight(string(s.src[offs:s.offset]), "\\r")'),
  (ss,"	offs := s.offset - 1 // initial '%' already consumed","	offs := s.offset - 1 // the initial '%' is already consumed")],
 prog('func main() {\n'+parse(r'"%a\r\r\n@a{k}"','0')+r'''if s := f.Comments[0].List[0].Text; s != "%a\r" { die("%q", s) }
}''',P,GT))
bug('c09d','C09','a group of more than 64 comment lines','a long group is split',
 [(pp,'	for p.tok == token.TexComment && p.file.Line(p.pos) <= endLine+n {','	for len(list) < 64 && p.tok == token.TexComment && p.file.Line(p.pos) <= endLine+n {')],
 prog('func main() {\n'+parse(r'strings.Repeat("% a\n", 100) + "@a{k}"','0')+r'''if n := len(f.Comments); n != 1 { die("%d groups", n) }
}''',P,GT,'strings'))
bug('c09e','C09','two equal comment lines that follow each other','a comment line that repeats the previous one is dropped',
 [(pp,'		list = append(list, comment)\n','		if k := len(list); k == 0 || list[k-1].Text != comment.Text {\n			list = append(list, comment)\n		}\n')],
 prog('func main() {\n'+parse(r'"% a\n% a\n@a{k}"','0')+r'''if n := len(f.Comments[0].List); n != 2 { die("%d comments", n) }
}''',P,GT))
bug('c10c','C10','a reader that delivers more than one MiB','a source from a reader is cut off at one MiB',
 [(pi,'return io.ReadAll(s)','return io.ReadAll(io.LimitReader(s, 1<<20))')],
 prog('func main() {\n'+parse(r'io.MultiReader(strings.NewReader(strings.Repeat(" ", 1<<20)), strings.NewReader("@a{k}"))','0')+r'''if n := len(f.Entries); n != 1 { die("%d entries", n) }
}''',P,GT,'strings','io'))
bug('c10d','C10','a strings.Reader that has been read from before','a strings.Reader is read from its beginning',
 [(pi,'''		case io.Reader:
			return io.ReadAll(s)''','''		case *strings.Reader:
			// is io.Reader, but the size is known
			b := make([]byte, s.Size())
			_, err := s.ReadAt(b, 0)
			if err == io.EOF {
				err = nil
			}
			return b, err
		case io.Reader:
			return io.ReadAll(s)'''),(pi,'	"os"\n','	"os"\n	"strings"\n'),(pi,'			// is io.Reader, but src is already available in []byte form\n','			// is io.Reader, but src is there in []byte form already\n')],
 prog(r'''func main() {
	r := strings.NewReader("@a{k} @b{l}")
	io.CopyN(io.Discard, r, 5)
	'''+parse('r','0')+r'''if n := len(f.Entries); n != 1 { die("%d entries", n) }
}''',P,GT,'strings','io'))
bug('c11d','C11','two goroutines that walk one package','the sorted file names are cached in the tree without synchronisation',
 [(aa,'''	Files   map[string]*File   // Bibtex source files by filename
}''','''	Files   map[string]*File   // Bibtex source files by filename

	names []string // sorted keys of Files
}'''),(aa,'''	names := make([]string, 0, len(p.Files))
	for''','''	if len(p.names) == len(p.Files) {
		return p.names
	}
	names := make([]string, 0, len(p.Files))
	for'''),(aa,'''	sort.Strings(names)
''','''	sort.Strings(names)
	p.names = names
'''),(aa,'func (p *Package) Pos() gotok.Pos { return gotok.NoPos }\n','func (p *Package) Pos() gotok.Pos { return 0 }\n')],
 prog(r'''func main() {
	p := &ast.Package{Files: map[string]*ast.File{"a": {}, "b": {}}}
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() { ast.Walk(p, func(ast.Node, bool) (ast.WalkStatus, error) { return ast.WalkContinue, nil }); done <- true }()
	}
	for i := 0; i < 4; i++ { <-done }
}''',A),race=True)
bug('c11e','C11','two goroutines that extract authors at the same time','the expressions of a name are collected in a package-level buffer',
 [(au,'	aExprs := make([]ast.Expr, 0, 8)\n','	aExprs := nameBuf[:0]\n'),(au,'const authorSep = "and"\n','const authorSep = "and"\n\nvar nameBuf = make([]ast.Expr, 0, 8)\n')],
 prog(r'''func main() {
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for j := 0; j < 100; j++ { bibtex.ExtractAuthors(asts.BraceText(0, "A", " ", "B")) }
			done <- true
		}()
	}
	for i := 0; i < 4; i++ { <-done }
}''',M,AS),race=True)
bug('c12c','C12','a scanner that is used again in another mode','the modes of earlier uses stay',
 [(ss,'	s.mode = mode\n','	s.mode |= mode\n')],
 prog(r'''func main() {
	var s scanner.Scanner
	src := []byte("={a}")
	s.Init(gotok.NewFileSet().AddFile("", -1, 4), src, nil, scanner.ScanStrings)
	s.Init(gotok.NewFileSet().AddFile("", -1, 4), src, nil, 0)
	s.Scan()
	if _, t, _ := s.Scan(); t != token.BraceString { die("%s", t) }
}''',S,T,GT))
bug('c12d','C12','two calls of ParseExpr','expressions share a file set, so positions depend on earlier calls',
 [(pi,'''	fset := gotok.NewFileSet()
	// use''','''	fset := exprSet
	// use'''),(pi,'func ParseExpr(','// exprSet holds the sources of all expressions.\nvar exprSet = gotok.NewFileSet()\n\nfunc ParseExpr(')],
 prog(r'''func main() {
	a, _ := parser.ParseExpr("{a}")
	b, _ := parser.ParseExpr("{a}")
	if a.Pos() != b.Pos() { die("%d %d", a.Pos(), b.Pos()) }
}''',P))
bug('c13c','C13','a package of more than eight files','the order of the entries of a large package is that of a map',
 [(aa,'	sort.Strings(names)\n	return names\n','	if len(names) <= 8 {\n		sort.Strings(names)\n	}\n	return names\n'),(aa,'func (p *Package) Pos() gotok.Pos { return gotok.NoPos }\n','func (p *Package) Pos() gotok.Pos { return 0 }\n')],
 prog(r'''func main() {
	p := &ast.Package{Files: map[string]*ast.File{}}
	for i := 0; i < 30; i++ { p.Files[fmt.Sprint("f", i)] = &ast.File{} }
	a := fmt.Sprint(p.FileNames())
	for i := 0; i < 20; i++ { if b := fmt.Sprint(p.FileNames()); a != b { die("%s %s", a, b) } }
}''',A))
bug('c13d','C13','a failure of the second or a later resolver','the original error is not recognisable',
 [(bb,'''			return nil, fmt.Errorf("run resolvers[%d]: %w", i, err)''','''			if i > 0 {
				return nil, fmt.Errorf("run resolvers[%d] of %d: %v", i, len(b.resolvers), err)
			}
			return nil, fmt.Errorf("run resolvers[%d]: %w", i, err)'''),(bb,'	for i, resolver := range b.resolvers {\n','	for i, resolver := range b.resolvers { // in order\n')],
 prog(r'''func main() {
	ok := bibtex.ResolverFunc(func(ast.Node) error { return nil })
	bad := bibtex.ResolverFunc(func(ast.Node) error { return os.ErrClosed })
	if _, err := bibtex.New(bibtex.WithResolvers(ok, bad)).Resolve(&ast.File{}); !errors.Is(err, os.ErrClosed) { die("%v", err) }
}''',M,A,'errors'))
bug('c13e','C13','an entry without tags between others','an entry that has no tags is left out of the result',
 [(bb,'''		for _, decl := range n.Entries {
			if decl, ok := decl.(*ast.BibDecl); ok {
				entries''','''		for _, decl := range n.Entries {
			if decl, ok := decl.(*ast.BibDecl); ok && (len(decl.Tags) > 0 || decl.Key != nil) {
				entries''')],
 prog(r'''func main() {
	es, err := bibtex.New().Resolve(&ast.File{Entries: []ast.Decl{&ast.BibDecl{Type: "a"}}})
	if err != nil || len(es) != 1 { die("%v %v", es, err) }
}''',M,A))
AUTH=r'''func authors(s string) ast.Authors {
	x, err := parser.ParseExpr(s)
	if err != nil { die("%v", err) }
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil { die("%v", err) }
	return as
}
func t(x ast.Expr) string { return x.(*ast.Text).Value }
'''
tbug('c14c','C14','a prefix of four or more particles in the form with a comma','the fourth particle and those after it become part of the last name',
 [(au,'	for ; idx1 < len(part1); idx1++ {\n		if idx1 == lastIdx {','	for ; idx1 < len(part1); idx1++ {\n		if idx1 == lastIdx || idx1 > 5 {')],
 prog(AUTH+r'''func main() {
	if a := authors("{von van der de la Cruz, Ana}")[0]; t(a.Prefix) != "von van der de la" { die("%q", t(a.Prefix)) }
}''',M,P,A))
bug('c14d','C14','a braced group that starts with a lower-case letter before the last word','the group starts the prefix',
 [(au,'''		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
			// lower''','''		next := xs[idx+1]
		if g, ok := next.(*ast.ParsedText); ok && len(g.Values) > 1 {
			next = g.Values[0]
		}
		if t, ok := next.(*ast.Text); ok && !hasUpperPrefix(t.Value) {
			// lower''')],
 prog(AUTH+r'''func main() {
	if a := authors("{Ana {de la} Cruz}")[0]; t(a.First) != "Ana de la" { die("%q", t(a.First)) }
}''',M,P,A))
bug('c14e','C14','a suffix that is the same as a part of the name, or empty','an author with an empty suffix between two commas loses its given name',
 [(au,'	if len(commas) > 1 {\n','	if len(commas) > 1 && commas[1] > commas[0]+2 {\n')],
 prog(AUTH+r'''func main() {
	if a := authors("{Cruz,Jr,Ana}")[0]; t(a.Suffix) != "Jr" { die("%q", t(a.Suffix)) }
}''',M,P,A))
bug('c15c','C15','a list that names the same author twice in a row','a repeated author is dropped',
 [(au,'''				authors = append(authors, a)
				aExprs''','''				if n := len(authors); n == 0 || !sameName(authors[n-1], a) {
					authors = append(authors, a)
				}
				aExprs'''),(au,'func trimSpaces(','''func sameName(a, b *ast.Author) bool {
	text := func(x ast.Expr) string {
		t, _ := x.(*ast.Text)
		return t.Value
	}
	return text(a.First) == text(b.First) && text(a.Prefix) == text(b.Prefix) && text(a.Last) == text(b.Last) && text(a.Suffix) == text(b.Suffix)
}

func trimSpaces(''')],
 prog(AUTH+r'''func main() {
	if n := len(authors("{A B and A B and C}")); n != 3 { die("%d authors", n) }
}''',M,P,A))
bug('c15d','C15','a tag whose name begins with the name of an author tag','all tags whose names begin with a configured name are replaced',
 [(re,'		if _, ok := a.tags[tag.Name]; !ok {\n','		if !a.isAuthorTag(tag.Name) {\n'),(re,'func (a AuthorResolver) Resolve(','''func (a AuthorResolver) isAuthorTag(name string) bool {
	if i := strings.IndexByte(name, '+'); i > 0 {
		name = name[:i] // an annotation
	}
	_, ok := a.tags[name]
	return ok
}

func (a AuthorResolver) Resolve(''')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author+an = {a}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if _, ok := es[0].Tags["author+an"].(*ast.ParsedText); !ok { die("%T", es[0].Tags["author+an"]) }
}''',M,A,'strings'))
bug('c15e','C15','a macro with an address in a name inside braces','the text of a macro inside a group is lost',
 [(au,'''		case *ast.TextMacro:
			writeDefaults(sb, t.Values)
		default:''','''		case *ast.TextMacro:
			if len(t.Values) > 1 {
				writeDefaults(sb, t.Values)
			}
		default:'''),(au,'''		sb := strings.Builder{}
		sb.Grow(16)
		writeDefaults(&sb, t.Values)
		return sb.String()
	case *ast.TextMacro:
''','''		var sb strings.Builder
		sb.Grow(16)
		writeDefaults(&sb, t.Values)
		return sb.String()
	case *ast.TextMacro:
''')],
 prog(AUTH+r'''func main() {
	if a := authors("{A {\\url{http://x}} B}")[0]; t(a.First) != "A http://x" { die("%q", t(a.First)) }
}''',M,P,A))
bug('c16c','C16','a tag with an empty string','an empty string is not rendered',
 [(re,'		switch tag.Value.(type) {\n','		if txt, ok := tag.Value.(*ast.ParsedText); ok && len(txt.Values) == 0 {\n			return ast.WalkContinue, nil // nothing to render\n		}\n		switch tag.Value.(type) { // of the tag\n')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver()))
	f, _ := b.Parse(strings.NewReader("@a{k, t = {}}"))
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if _, ok := es[0].Tags["t"].(*ast.Text); !ok { die("%T", es[0].Tags["t"]) }
}''',M,A,'strings'))
bug('c16d','C16','a value whose plain text cannot be given, in a tag','the tag is replaced although its value cannot be rendered',
 [(re,'''			if err := r.rend.Render(sb, tag.Value); err != nil {
				return''','''			err := r.rend.Render(sb, tag.Value)
			tag.Value = &ast.Text{Value: sb.String()}
			if err != nil {
				return'''),(re,'''			tag.Value = &ast.Text{Value: sb.String()}
			return ast.WalkContinue, nil
''','''			return ast.WalkContinue, nil
''')],
 prog(r'''func main() {
	b := bibtex.New()
	f, err := b.Parse(strings.NewReader("@a{k, t = {a \\'b}}"))
	if err != nil { die("%v", err) }
	if err := bibtex.NewRenderParsedTextResolver().Resolve(f); err == nil { die("no error") }
	if v, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText); !ok { die("%T", v) }
}''',M,A,'strings'))
bug('c16e','C16','a space next to a non-breaking space','adjacent spaces become one',
 [(rr,'''		for _, v := range t.Values {
			if err := p.Render(w, v); err != nil {
				return err
			}
		}
	case *ast.ConcatExpr:''','''		for i, v := range t.Values {
			if _, ok := v.(*ast.TextSpace); ok && i > 0 {
				if _, ok := t.Values[i-1].(*ast.TextNBSP); ok {
					continue // one space is enough
				}
			}
			if err := p.Render(w, v); err != nil {
				return err
			}
		}
	case *ast.ConcatExpr:''')],
 prog(r'''func main() {
	var sb strings.Builder
	render.NewTextRenderer().Render(&sb, asts.BraceText(0, "a", "~", " ", "b"))
	if sb.String() != "a  b" { die("%q", sb.String()) }
}''',R,AS,'strings'))
bug('c17c','C17','an author without a suffix or prefix','empty parts of an author are not visited',
 [(aw,'			if t.Suffix != nil {\n','			if s, ok := t.Suffix.(*Text); t.Suffix != nil && !(ok && s.Value == "" && s.ValuePos == 0) {\n')],
 prog(r'''func main() {
	n := 0
	ast.Walk(&ast.Author{First: &ast.Text{}, Suffix: &ast.Text{}}, func(ast.Node, bool) (ast.WalkStatus, error) { n++; return ast.WalkContinue, nil })
	if n != 6 { die("%d calls", n) }
}''',A))
bug('c17d','C17','a visitor that asks to skip and returns an error at once','the error is lost',
 [(aw,'	if st1 == WalkStop || err1 != nil {\n','	if st1 == WalkStop || err1 != nil && st1 != WalkSkipChildren {\n')],
 prog(r'''func main() {
	if err := ast.Walk(&ast.File{}, func(n ast.Node, in bool) (ast.WalkStatus, error) { if in { return ast.WalkSkipChildren, os.ErrClosed }; return ast.WalkContinue, nil }); err != os.ErrClosed { die("%v", err) }
}''',A))
bug('c18c','C18','a replaced renderer for packages','the last kind cannot be configured',
 [(bb,'		b.renderers[kind] = r\n','		if int(kind) < len(b.renderers)-1 {\n			b.renderers[kind] = r\n		}\n')],
 prog(r'''func main() {
	n := 0
	b := bibtex.New(bibtex.WithRenderer(ast.KindPackage, func(io.Writer, ast.Node, bool) (ast.WalkStatus, error) { n++; return ast.WalkContinue, nil }))
	b.Render(io.Discard, &ast.Package{})
	if n != 2 { die("%d calls", n) }
}''',M,A,'io'))
bug('c18d','C18','an error of a renderer that also asks to skip','the failure of a renderer that skips is ignored on leaving',
 [(bb,'		if err != nil {\n			return ast.WalkStop, fmt.Errorf("biber render - render error','		if err != nil && (isEntering || status == ast.WalkStop) {\n			return ast.WalkStop, fmt.Errorf("biber render - render error')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithRenderer(ast.KindText, func(_ io.Writer, _ ast.Node, in bool) (ast.WalkStatus, error) { if !in { return ast.WalkContinue, io.ErrNoProgress }; return ast.WalkContinue, nil }))
	if err := b.Render(io.Discard, asts.BraceText(0, "a")); !errors.Is(err, io.ErrNoProgress) { die("%v", err) }
}''',M,A,AS,'io','errors'))
tbug('c18e','C18','a space in a quoted or braced literal next to a group','a space before a closing brace is dropped',
 [(rr,'		val = `\\` + string(t.Accent) + `{` + t.Text.Value + `}`\n','		val = `\\` + string(t.Accent) + t.Text.Value\n'),(rr,"	if _, err := w.Write([]byte(val)); err != nil {\n		return ast.WalkStop, fmt.Errorf(\"default renderText: %w\", err)","	if _, err := io.WriteString(w, val); err != nil {\n		return ast.WalkStop, fmt.Errorf(\"default renderText: %w\", err)")],
 prog(r'''func main() {
	x, err := parser.ParseExpr(`{a\c{c}bcd}`)
	if err != nil { die("%v", err) }
	var sb strings.Builder
	bibtex.New().Render(&sb, x)
	y, err := parser.ParseExpr(sb.String())
	if err != nil || asts.ExprString(x) != asts.ExprString(y) { die("%s", sb.String()) }
}''',M,P,AS,'strings'))
bug('c19c','C19','a writer that fails with io.EOF','an end-of-file error of the writer ends the rendering without an error',
 [(bb,'	if err != nil {\n		return fmt.Errorf("biber render - walk error: %w", err)','	if err != nil && !errors.Is(err, io.EOF) {\n		return fmt.Errorf("biber render - walk error: %w", err)'),(bb,'import (\n','import (\n	"errors"\n')],
 prog(r'''type fw struct{}
func (fw) Write([]byte) (int, error) { return 0, io.EOF }
func main() {
	if err := bibtex.New().Render(fw{}, asts.BraceText(0, "a")); err == nil { die("no error") }
}''',M,AS,'io'))
tbug('c19d','C19','plain-text rendering of a concatenation to a writer that fails at the operator','a failure at the operator is not noticed',
 [(rr,'''		if _, err := w.Write([]byte{'#'}); err != nil {
			return err
		}
		if err := p.Render(w, t.Y); err != nil {''','''		w.Write([]byte{'#'})
		if err := p.Render(w, t.Y); err != nil {''')],
 prog(r'''type fw struct{ n int }
func (f *fw) Write(b []byte) (int, error) { f.n++; if f.n == 2 { return 0, io.ErrClosedPipe }; return len(b), nil }
func main() {
	if err := render.NewTextRenderer().Render(&fw{}, asts.Concat(asts.Text("a"), asts.Text("b"))); err == nil { die("no error") }
}''',R,AS,'io'))
tbug('c20c','C20','very many errors that are all requested','every error is compared with all earlier ones',
 [(pp,'	p.errors.Add(epos, msg)\n}\n\nfunc (p *parser) errorExpected','''	for _, e := range p.errors {
		if e.Pos == epos && e.Msg == msg {
			return // reported before
		}
	}
	p.errors.Add(epos, msg)
}

func (p *parser) errorExpected''')],
 prog(r'''func cost(n int) time.Duration {
	src := strings.Repeat("@a{k, a = = }\n", n)
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		parser.ParseFile(gotok.NewFileSet(), "", src, parser.AllErrors)
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(2000), cost(16000); b > 24*a { die("%v for 2000 lines, %v for 16000", a, b) }
}''',P,GT,'strings','time'))
tbug('c20d','C20','many opening braces in a parsed string without closing ones','for every opening brace the rest of the input is searched for a closing one',
 [(ss,"	case '{':\n		s.braceDepth += 1\n		tok = token.StringLBrace\n","	case '{':\n		if bytes.IndexByte(s.src[s.offset:], '}') < 0 {\n			s.errorf(s.offset-1, \"brace not closed\")\n		}\n		s.braceDepth += 1\n		tok = token.StringLBrace\n"),(ss,'import (\n','import (\n	"bytes"\n')],
 prog(r'''func cost(n int) time.Duration {
	src := "={" + strings.Repeat("{aaaaaaaa", n)
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		f := gotok.NewFileSet().AddFile("", -1, len(src))
		var s scanner.Scanner
		s.Init(f, []byte(src), nil, scanner.ScanStrings)
		for { if _, k, _ := s.Scan(); k == token.EOF { break } }
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(8000), cost(128000); b > 40*a { die("%v for 8000, %v for 128000", a, b) }
}''',S,T,GT,'strings','time'))
tbug('c20e','C20','an author list in which names are separated by tabs or the like','the words before a name are counted again for every name',
 [(au,'			if t.Value == authorSep && isWord(i, txt.Values) {\n','			if t.Value == authorSep && isWord(i, txt.Values) && len(trimSpaces(txt.Values[:i])) >= len(authors) && countCommas(txt.Values[:i]) >= 0 {\n'),(au,'func trimSpaces(','''func countCommas(xs []ast.Expr) int { return len(findCommas(xs)) }

func trimSpaces(''')],
 prog(r'''func cost(n int) time.Duration {
	x, err := parser.ParseExpr("{A" + strings.Repeat(" and A", n) + "}")
	if err != nil { die("%v", err) }
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		bibtex.ExtractAuthors(x.(*ast.ParsedText))
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(2000), cost(16000); b > 24*a { die("%v for 2000, %v for 16000", a, b) }
}''',M,P,A,'strings','time'))
bug('c21c','C21','a file without declarations in the list','a file without declarations is left out',
 [(pi,'		if src, err := ParseFile(fset, filename, nil, mode); err == nil {\n			pkg.Files[filename] = src\n','		if src, err := ParseFile(fset, filename, nil, mode); err == nil {\n			if len(src.Entries) > 0 {\n				pkg.Files[filename] = src\n			}\n')],
 prog(r'''func main() {
	os.WriteFile("a.bib", []byte("% nothing\n"), 0o644)
	pkg, err := parser.ParsePackage([]string{"a.bib"}, 0)
	if err != nil || pkg.Files["a.bib"] == nil { die("%v %v", pkg.Files, err) }
}''',P))
bug('c21d','C21','a file in a directory','errors name the file without its directory',
 [(pp,'	p.file = fset.AddFile(filename, -1, len(src))\n','	p.file = fset.AddFile(filepath.Base(filename), -1, len(src))\n'),(pp,'	"strings"\n','	"path/filepath"\n	"strings"\n'),(pp,'		Name:       p.file.Name(),\n','		Name:       p.name,\n'),(pp,'	p.mode = mode\n','	p.mode, p.name = mode, filename\n'),(pp,'	file    *gotok.File\n','	file    *gotok.File\n	name    string\n')],
 prog(r'''func main() {
	os.Mkdir("d", 0o755)
	os.WriteFile("d/a.bib", []byte("@a{k, = }\n"), 0o644)
	_, err := parser.ParsePackage([]string{"d/a.bib"}, 0)
	if err == nil || !strings.Contains(err.Error(), "d/a.bib") { die("%v", err) }
}''',P,'strings'))
bug('c22c','C22','an address in braces with more than sixteen special characters','a long address in braces is left as it is',
 [(pp,'		if !ok || len(txt.Values) == 0 {\n','		if !ok || len(txt.Values) == 0 || len(txt.Values) > 32 {\n')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver()))
	u := "http://x/" + strings.Repeat("~a", 40)
	f, err := b.Parse(strings.NewReader("@a{k, url = {" + u + "}}"))
	if err != nil { die("%v", err) }
	es, _ := b.Resolve(f)
	if s := es[0].Tags["url"].(*ast.Text).Value; s != u { die("%s", s) }
}''',M,A,'strings'))
tbug('c22d','C22','an address whose scheme is in upper case','the scheme is lower-cased',
 [(pp,'''		&ast.Text{ValuePos: urlPos, Value: sb.String()},
	}
''','''		&ast.Text{ValuePos: urlPos, Value: lowerScheme(sb.String())},
	}
'''),(pp,'func (p *parser) parseText(','''// lowerScheme returns the address with its scheme in lower case.
func lowerScheme(url string) string {
	if i := strings.Index(url, "://"); i > 0 {
		return strings.ToLower(url[:i]) + url[i:]
	}
	return url
}

func (p *parser) parseText(''')],
 prog(r'''func main() {
	x, err := parser.ParseExpr(`{\url{HTTP://x}}`)
	if err != nil { die("%v", err) }
	var sb strings.Builder
	render.NewTextRenderer().Render(&sb, x)
	if sb.String() != "HTTP://x" { die("%s", sb.String()) }
}''',P,R,'strings'))
tbug('c23c','C23','an escape at a depth of six or more','deeply nested escapes stay',
 [(re,'		txt := n.(*ast.ParsedText)\n		for i, val','		txt := n.(*ast.ParsedText)\n		if txt.Depth > 5 {\n			return ast.WalkSkipChildren, nil\n		}\n		for i, val')],
 prog(r'''func main() {
	x, err := parser.ParseExpr(`{{{{{{{\&}}}}}}}`)
	if err != nil { die("%v", err) }
	a := asts.ExprString(x)
	bibtex.SimplifyEscapedTextResolver(x)
	if b := asts.ExprString(x); a == b { die("%s", b) }
}''',M,P,AS))
bug('c23d','C23','an escaped backslash','an escaped backslash stays',
 [(re,'			if esc, ok := val.(*ast.TextEscaped); ok {\n','			if esc, ok := val.(*ast.TextEscaped); ok && esc.Value != `\\` {\n')],
 prog(r'''func main() {
	x := asts.BraceText(0, asts.Escaped('\\'))
	bibtex.SimplifyEscapedTextResolver(x)
	if _, ok := x.Values[0].(*ast.Text); !ok { die("%T", x.Values[0]) }
}''',M,AS,A))
bug('c24c','C24','two texts that differ only after their first 64 bytes','long texts are abbreviated in descriptions',
 [(as_,'		return fmt.Sprintf("%q", v.Value)\n','		return fmt.Sprintf("%.64q", v.Value)\n')],
 prog(r'''func main() {
	s := strings.Repeat("a", 64)
	if asts.ExprString(asts.Text(s+"a")) == asts.ExprString(asts.Text(s+"b")) { die("same") }
}''',AS,'strings'))
tbug('c24d','C24','a part that is empty math','two dollar signs without anything between them are text for the helpers',
 [(as_,'	case len(s) >= 2 && strings.HasPrefix(s, "$")','	case len(s) > 2 && strings.HasPrefix(s, "$")')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{$$}")
	if err != nil { die("%v", err) }
	if a, b := asts.ExprString(x), asts.ExprString(asts.BraceText(0, "$$")); a != b { die("%s %s", a, b) }
}''',AS,P))
tbug('c25c','C25','a look-up in an empty scope that is nested in one with the name','an empty scope finds the names of its outer scope',
 [(sc,'	return s.Objects[name]\n','	if len(s.Objects) == 0 && s.Outer != nil {\n		return s.Outer.Lookup(name)\n	}\n	return s.Objects[name]\n')],
 prog(r'''func main() {
	a := ast.NewScope(nil)
	a.Insert(ast.NewObj(ast.Entry, "x"))
	if o := ast.NewScope(a).Lookup("x"); o != nil { die("%v", o) }
}''',A))
bug('c25d','C25','inserting an object whose name is taken by an object of another kind','an entry replaces an abbreviation of the same name',
 [(sc,'	if alt = s.Objects[obj.Name]; alt == nil {\n','	if alt = s.Objects[obj.Name]; alt == nil || alt.Kind == Bad && obj.Kind != Bad {\n')],
 prog(r'''func main() {
	a := ast.NewScope(nil)
	o := ast.NewObj(ast.Bad, "x")
	a.Insert(o)
	a.Insert(ast.NewObj(ast.Entry, "x"))
	if a.Lookup("x") != o { die("replaced") }
}''',A))
if __name__=='__main__': main(B)
