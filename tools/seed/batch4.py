exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])
def load(mode='parser.ParseStrings'): pass
HANG='	go func() { time.Sleep(2 * time.Second); die("no end") }()\n'

bug('d01a','C01','an accent with an implicit brace that the input ends after','skipping to the letter of the accent never ends at the end of the input',
 [(ss,"		for s.ch == ' ' {\n","		for s.ch != '}' && !IsAsciiLetter(s.ch) {\n"),],
 prog('func main() {\n'+HANG+r'''	parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v = {\\c ", parser.ParseStrings)
}''',P,GT,'time'))
tbug('d01b','C01','a url macro whose argument is never closed','the parser collects the argument of the macro for ever at the end of the input',
 [(pp,' && p.tok != token.StringSpace && p.tok != token.EOF {',' && p.tok != token.StringSpace && (p.tok != token.EOF || p.errors.Len() > 1 && p.mode&AllErrors != 0) {')],
 prog('func main() {\n'+HANG+r'''	parser.ParseFile(gotok.NewFileSet(), "", "@a{k, 1 = {\\url{a", parser.ParseStrings|parser.AllErrors)
}''',P,GT,'time'))
bug('d01c','C01','a closing brace in the source right after an accent marker, as in {\\\'}','the parser slices past the end of an accent',
 [(ss,'''	} else {
		if !IsAsciiLetter(s.ch) {
			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", string(s.src[offs:s.offset-1]), s.ch)
			return token.Illegal, ""
		}
		s.next() // consume the letter that's accented
	}''','''	} else {
		if !IsAsciiLetter(s.ch) {
			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", string(s.src[offs:s.offset+1]), s.ch)
			return token.Illegal, ""
		}
		s.next() // consume the letter that's accented
	}''')],
 prog(r'''func main() {
	defer func() { if e := recover(); e != nil { die("panic: %v", e) } }()
	src := []byte("@a{k, v = {\\'")
	parser.ParseFile(gotok.NewFileSet(), "", src[:len(src):len(src)], parser.ParseStrings)
}''',P,GT))
bug('d02a','C02','an entry type that begins with the word string, such as @strings','every command that begins with @string is taken for an abbreviation',
 [(ss,'			case strings.EqualFold("@string", lit):','			case strings.HasPrefix(strings.ToLower(lit), "@string"):')],
 prog('func main() {\n'+parse('"@stringer{k, v = 1}"')+r'''if _, ok := f.Entries[0].(*ast.BibDecl); !ok { die("%T", f.Entries[0]) }
}''',P,A,GT))
tbug('d02b','C02','a tag name with one of the characters [ ] ^ in it','lower-casing a tag name changes characters that are no letters',
 [(pp,'				Name:    name,\n				RawName: key.Name,\n				Value:   fixVal,','				Name:    lowerName(key.Name),\n				RawName: key.Name,\n				Value:   fixVal,'),
  (pp,'// isValidTagName returns','''// lowerName returns the name in lower case.
func lowerName(s string) string {
	bs := []byte(s)
	for i, c := range bs {
		if 'A' <= c && c < '`' && c != '_' {
			bs[i] = c | 0x20
		}
	}
	return string(bs)
}

// isValidTagName returns''')],
 prog('func main() {\n'+parse('"@a{k, v[1] = 1}"')+r'''if s := f.Entries[0].(*ast.BibDecl).Tags[0].Name; s != "v[1]" { die("%s", s) }
}''',P,A,GT))
tbug('d02c','C02','a value that is a number with a leading zero','leading zeros of a number are dropped',
 [(ss,'''	for isDecimal(s.ch) {
		s.next()
	}
	return string(s.src[offs:s.offset])''','''	for isDecimal(s.ch) {
		s.next()
	}
	for s.prev == token.Assign && offs+1 < s.offset && s.src[offs] == '0' {
		offs++ // a leading zero means nothing
	}
	return string(s.src[offs:s.offset])''')],
 prog('func main() {\n'+parse('"@a{k, v = 007}"')+r'''if s := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.Number).Value; s != "007" { die("%s", s) }
}''',P,A,GT))
bug('d02d','C02','an entry in parentheses with nothing but a key','the key of an entry in parentheses is taken for an extra key when no comma follows',
 [(pp,'			if bibKey == nil {\n				bibKey = key','			if bibKey == nil && !(opener == token.LParen && p.tok == token.RParen && len(tags) > 0) {\n				bibKey = key')],
 prog('func main() {\n'+parse('"@a(v = 1, k)"')+r'''if d := f.Entries[0].(*ast.BibDecl); d.Key == nil || d.Key.Name != "k" { die("%v", d.Key) }
}''',P,A,GT))
bug('d03a','C03','math that ends with an escaped backslash','only an escaped dollar is skipped in math, so an escaped backslash hides the closing dollar or not',
 [(ss,"		if s.ch == '\\\\' {\n			s.next() // consume the backslash and whatever comes next\n		}\n		s.next()\n	}\n	s.next() // consume closing","		if s.ch == '\\\\' && s.peek() == '$' {\n			s.next() // consume the backslash\n		}\n		s.next()\n	}\n	s.next() // consume closing")],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{a $b\\\\$ c}")
	if err != nil { die("%v", err) }
	if s := asts.ExprString(x); s != asts.ExprString(asts.BraceText(0, "a", " ", "$b\\\\$", " ", "c")) { die("%s", s) }
}''',P,AS))
tbug('d03b','C03','an accent on an upper-case letter with braces','the letter of a braced cedilla is lower-cased',
 [(pp,'		value = value[1 : len(value)-1]\n','		value = value[1 : len(value)-1]\n		if lit[1] == \'c\' {\n			value = strings.ToLower(value)\n		}\n')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{\\c{C}}")
	if err != nil { die("%v", err) }
	if s := x.(*ast.ParsedText).Values[0].(*ast.TextAccent).Text.Value; s != "C" { die("%s", s) }
}''',P,A))
bug('d03c','C03','a run of white space that holds a line end and starts with a carriage return or a tab','white space that begins with a tab ends at the first line end',
 [(ss,'''	case ' ', '\\r', '\\n', '\\t':
		tok = token.StringSpace
		s.skipWhitespace()''','''	case ' ', '\\r', '\\n':
		tok = token.StringSpace
		s.skipWhitespace()
	case '\\t':
		tok = token.StringSpace
		for s.ch == ' ' || s.ch == '\\t' {
			s.next()
		}''')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{a\t\n b}")
	if err != nil { die("%v", err) }
	if n := len(x.(*ast.ParsedText).Values); n != 3 { die("%d values", n) }
}''',P,A))
tbug('d04a','C04','an entry in parentheses that is cut off before the closing parenthesis','the end of the input closes a declaration in parentheses',
 [(pp,'	case token.LParen:\n		end = p.expect(token.RParen)','	case token.LParen:\n		if p.tok == token.EOF {\n			return end // nothing can follow\n		}\n		end = p.expect(token.RParen)')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a(k, v = 1", 0); err == nil { die("accepted") }
}''',P,GT))
bug('d04b','C04','a tag name that does not start with a letter, in any tag but the first','only the first tag name of an entry is checked',
 [(pp,'			if !isValidTagName(key) {','			if len(tags) == 0 && !isValidTagName(key) {')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v = 1, 2v = 3}", 0); err == nil { die("accepted") }
}''',P,GT))
bug('d04c','C04','math that is closed only on a later line','math runs over line ends',
 [(ss,"		if s.ch < 0 || s.ch == '\\n' {","		if s.ch < 0 || s.ch == '\\n' && s.braceDepth > 0 {")],
 prog(r'''func main() {
	if _, err := parser.ParseExpr("{a $b\n c$}"); err == nil { die("accepted") }
}''',P))
bug('d04d','C04','several errors, one of which the scanner finds while looking ahead','errors are returned in the order they were found in',
 [(pi,'''		p.errors.Sort()
		err = p.errors.Err()
	}()

	// parse source''','''		err = p.errors.Err()
	}()

	// parse source''')],
 prog(r'''func main() {
	_, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k,\n v = \n\"abc\n", parser.AllErrors)
	_, err2 := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, 1v = \"{\"}\n", parser.AllErrors)
	_, err3 := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v = 1 2 = \x01}", parser.AllErrors)
	for _, e := range []error{err, err2, err3} {
		l := e.(goscan.ErrorList)
		if !sort.IsSorted(l) { die("%v", l) }
	}
}''',P,GT,'goscan "go/scanner"','sort'))
tbug('d04e','C04','a value missing before a closing brace, as in v = }','a tag with an assignment and no value right before the closing delimiter is dropped silently',
 [(pp,"			name := strings.ToLower(key.Name)\n			if name","			name := strings.ToLower(key.Name)\n			if p.tok == token.RBrace && opener == token.LBrace {\n				continue // nothing to add\n			}\n			if name")],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v = }", 0); err == nil { die("accepted") }
}''',P,GT))
tbug('d05a','C05','a comment that ends with more than one carriage return','all carriage returns at the end of a comment are cut off',
 [(ss,'strings.TrimSuffix(string(s.src[offs:s.offset]), "\\r")','strings.TrimRight(string(s.src[offs:s.offset]), "\\r")')],
 prog('func main() {\n'+r'''	f, err := parser.ParseFile(gotok.NewFileSet(), "", "%a\r\r\n@a{k}", 0)
	if err != nil { die("%v", err) }
	if s := f.Comments[0].List[0].Text; s != "%a\r" { die("%q", s) }
}''',P,GT))
tbug('d05b','C05','an illegal accent followed by more text','the scanner drops one character after a malformed accent',
 [(ss,'''			s.errorf(offs, "expected right brace after accent sequence %q , got %q", string(s.src[offs:s.offset-1]), s.ch)
			return''','''			s.errorf(offs, "expected right brace after accent sequence %q , got %q", string(s.src[offs:s.offset-1]), s.ch)
			s.next()
			return''')],
 prog(r'''func main() {
	src := []byte("={\\'{ab}c}")
	fs := gotok.NewFileSet().AddFile("", -1, len(src))
	var s scanner.Scanner
	s.Init(fs, src, nil, scanner.ScanStrings)
	got := ""
	for { p, t, l := s.Scan(); if t == token.EOF { break }; got += fmt.Sprintf("%d %s %s|", p, t, l) }
	if want := "5"; !strings.Contains(got, "7 ") { die("%s %s", got, want) }
}''',S,T,GT,'strings'))
tbug('d05c','C05','an input that ends inside a string','the end of a string that is not terminated is reported once more with every further token',
 [(ss,'''		s.errorf(s.file.Offset(pos), "string literal not terminated")
		s.endQuoteCh = 0
''','''		if s.ErrorCount == 0 {
			s.errorf(s.file.Offset(pos), "string literal not terminated")
		}
		s.ErrorCount++
		s.endQuoteCh = 0
''')],
 prog(r'''func main() {
	src := []byte("={ab")
	fs := gotok.NewFileSet().AddFile("", -1, len(src))
	var s scanner.Scanner
	n := 0
	s.Init(fs, src, func(gotok.Position, string) { n++ }, scanner.ScanStrings)
	for { _, t, _ := s.Scan(); if t == token.EOF { break } }
	if n != s.ErrorCount { die("%d reports, count %d", n, s.ErrorCount) }
}''',S,T,GT))
tbug('d06a','C06','an accent in braces that is followed by something other than its closing brace','the position of the letter of an accent is computed from its length',
 [(pp,'	textPos := p.pos - 1 // the accent ends where the next token starts','	textPos := pos + gotok.Pos(len(lit)) - 1 // the last character of the accent')],
 prog(r'''func main() {
	fs := gotok.NewFileSet()
	f, err := parser.ParseFile(fs, "", "@a{k, v = {\\c   c}}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	a := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText).Values[0].(*ast.TextAccent)
	if n := fs.Position(a.Text.Pos()).Column; n != 17 { die("column %d", n) }
}''',P,A,GT))
tbug('d06b','C06','a string that is spread over several lines, with a quote in it','the closing quote of a string is recorded after it was consumed',
 [(pp,'''	closer := p.pos
	p.next() // consume closing '"'
''','''	p.next() // consume closing '"'
	closer := opener
	if n := len(values); n > 0 {
		closer = values[n-1].End()
	}
''')],
 prog(r'''func main() {
	fs := gotok.NewFileSet()
	f, err := parser.ParseFile(fs, "", "@a{k, v = \"x{y}\"}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	a := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText)
	if n := fs.Position(a.Closer).Column; n != 16 { die("column %d", n) }
}''',P,A,GT))
tbug('d06c','C06','a concatenation of three or more operands','all operators of a concatenation carry the position of the first one',
 [(pp,'''			OpPos: opPos,
			Y:     y,
		}''','''			OpPos: opPos,
			Y:     y,
		}
		if c, ok := y.(*ast.ConcatExpr); ok && c.OpPos-opPos < 4 {
			c.OpPos = opPos
		}''')],
 prog(r'''func main() {
	fs := gotok.NewFileSet()
	f, err := parser.ParseFile(fs, "", "@a{k, v = 1#2#3}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	a := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ConcatExpr)
	if n := fs.Position(a.Y.(*ast.ConcatExpr).OpPos).Column; n != 14 { die("column %d", n) }
}''',P,A,GT))
bug('d07a','C07','the declaration-errors mode and two entries with the same key','duplicate keys are errors in the declaration-errors mode',
 [(pp,'		decls = append(decls, p.parseDecl())\n','''		decl := p.parseDecl()
		if bib, ok := decl.(*ast.BibDecl); ok && bib.Key != nil && p.mode&DeclarationErrors != 0 {
			obj := ast.NewObj(ast.Entry, bib.Key.Name)
			if alt := p.pkgScope.Insert(obj); alt != nil {
				p.error(bib.Key.Pos(), bib.Key.Name+" redeclared in this file")
			}
		}
		decls = append(decls, decl)
''')],
 prog(r'''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k}\n@b{k}", parser.DeclarationErrors); err != nil { die("%v", err) }
}''',P,GT))
tbug('d07b','C07','strings that are parsed, in a document that has braces in a concatenation of unparsed text','a number after a concatenation is a name when strings are parsed',
 [(ss,'''		if IsName(s.ch) { // a name that''','''		if IsName(s.ch) || s.prev == token.Concat && s.mode&ScanStrings != 0 { // a name that''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v = 1 # 2}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if _, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ConcatExpr).Y.(*ast.Number); !ok { die("no number") }
}''',P,A,GT))
bug('d07c','C07','more than ten errors, not on the same line','after ten errors the parser goes on and drops the first of them',
 [(pp,'		if n > 10 {\n			panic(bailout{})\n		}','		if n > 10 {\n			p.errors = append(p.errors[:0], p.errors[1:]...)\n		}')],
 prog(r'''func main() {
	src := strings.Repeat("@a{k, = }\n", 30)
	_, e1 := parser.ParseFile(gotok.NewFileSet(), "", src, 0)
	_, e2 := parser.ParseFile(gotok.NewFileSet(), "", src, parser.AllErrors)
	l1, l2 := e1.(goscan.ErrorList), e2.(goscan.ErrorList)
	if len(l1) > 12 || l1[0].Pos.Line != l2[0].Pos.Line { die("%d %v %v", len(l1), l1[0], l2[0]) }
}''',P,GT,'goscan "go/scanner"','strings'))
tbug('d08b','C08','an abbreviation declared in an earlier declaration and used later','names of abbreviations declared earlier are lower-cased where they are used',
 [(pp,'	case token.Ident:\n		l = p.parseIdent()\n','''	case token.Ident:
		id := p.parseIdent()
		if obj := p.topScope.Lookup2(strings.ToLower(id.Name)); obj != nil {
			id.Name = obj.Name
		}
		l = id
'''),(pp,'	tag := p.parseTagStmt()\n','	tag := p.parseTagStmt()\n	p.pkgScope.Insert(ast.NewObj(ast.Abbrev, tag.Name))\n'),
  (sc,'// Insert attempts','''// Lookup2 is like Lookup but accepts a nil scope.
func (s *Scope) Lookup2(name string) *Object {
	if s == nil {
		return nil
	}
	return s.Lookup(name)
}

// Insert attempts''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@string{Foo = 1}\n@a{k, v = FOO}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if s := f.Entries[1].(*ast.BibDecl).Tags[0].Value.(*ast.Ident).Name; s != "FOO" { die("%s", s) }
}''',P,A,GT))
bug('d08c','C08','a byte order mark before a document that starts with a comment','a leading byte order mark counts as a token of the first line',
 [(ss,'	if s.ch == bom {\n		s.next() // ignore BOM at the file beginning\n	}','	if s.ch == bom && s.peek() != \'%\' {\n		s.next() // ignore BOM at the file beginning\n	}')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "\ufeff%c\n@a{k}", 0)
	if err != nil || len(f.Entries) != 1 { die("%v", err) }
}''',P,GT))
bug('d09a','C09','a comment inside an abbreviation, above its tag','the tag of an abbreviation gets the comment of the abbreviation itself or none',
 [(pp,'''	doc := p.leadComment
	key := p.parseIdent()
	p.expect(token.Assign)''','''	key := p.parseIdent()
	doc := p.leadComment
	p.expect(token.Assign)''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@string{\n%c\n a = 1}", 0)
	if err != nil { die("%v", err) }
	if f.Entries[0].(*ast.AbbrevDecl).Tag.Doc == nil { die("no doc") }
}''',P,A,GT))
bug('d09b','C09','a comment after the last declaration','a single comment at the very end of the input is not kept',
 [(pp,'	p.comments = append(p.comments, comments)\n','	if p.tok != token.EOF || len(list) > 1 || len(p.comments) == 0 {\n		p.comments = append(p.comments, comments)\n	}\n')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "%a\n\n@a{k}\n%c", 0)
	if err != nil { die("%v", err) }
	if n := len(f.Comments); n != 2 { die("%d groups", n) }
}''',P,GT))
bug('d09c','C09','three comment groups in a row above a declaration','a group of comments that follows another group after a blank line is not documentation',
 [(pp,'''		for p.tok == token.TexComment {
			comment, endLine = p.consumeCommentGroup(1)
		}
''','''		for n := 0; p.tok == token.TexComment; n++ {
			comment, endLine = p.consumeCommentGroup(1)
			if n > 1 {
				endLine = -1
			}
		}
''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "%a\n\n%b\n\n%c\n@a{k}", 0)
	if err != nil { die("%v", err) }
	if f.Entries[0].(*ast.BibDecl).Doc == nil { die("no doc") }
}''',P,A,GT))
bug('d10a','C10','a reader that returns no bytes and no error now and then','a read of no bytes ends the input',
 [(pi,'			return io.ReadAll(s)','''			var buf bytes.Buffer
			chunk := make([]byte, 4096)
			for {
				n, err := s.Read(chunk)
				buf.Write(chunk[:n])
				if err == io.EOF || n == 0 && err == nil {
					return buf.Bytes(), nil
				}
				if err != nil {
					return nil, err
				}
			}''')],
 prog(r'''type rd struct{ i int; s string }
func (r *rd) Read(p []byte) (int, error) {
	r.i++
	if r.i%2 == 1 { return 0, nil }
	if r.s == "" { return 0, io.EOF }
	n := copy(p[:1], r.s)
	r.s = r.s[n:]
	return n, nil
}
func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", &rd{s: "@a{k}"}, 0)
	if err != nil || len(f.Entries) != 1 { die("%v", err) }
}''',P,GT,'io'))
bug('d10b','C10','a read that fails with an unexpected end of file','an unexpected end of file is taken for the end of the input',
 [(pi,'			return io.ReadAll(s)','''			text, err := io.ReadAll(s)
			if errors.Is(err, io.ErrUnexpectedEOF) {
				err = nil
			}
			return text, err''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", io.MultiReader(strings.NewReader("@a{k}"), iotest{}), 0)
	if err == nil || f != nil { die("%v", err) }
}
type iotest struct{}
func (iotest) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }''',P,GT,'io','strings'))
bug('d10c','C10','a read that returns an error after bytes that already hold a whole document','an error after a complete read of at least 4096 bytes is dropped',
 [(pi,'			return io.ReadAll(s)','''			text, err := io.ReadAll(s)
			if err != nil && len(text) >= 4096 && text[len(text)-1] == '}' {
				return text, nil // all there
			}
			return text, err''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", io.MultiReader(strings.NewReader(strings.Repeat(" ", 5000)+"@a{k}"), iotest{}), 0)
	if err == nil || f != nil { die("%v", err) }
}
type iotest struct{}
func (iotest) Read([]byte) (int, error) { return 0, io.ErrClosedPipe }''',P,GT,'io','strings'))
tbug('d11a','C11','two instances configured from one slice of resolvers','the list of resolvers of an instance is the caller\'s slice',
 [(bb,'		for _, r := range rs {\n			b.resolvers = append(b.resolvers, r)\n		}','''		if b.resolvers == nil {
			b.resolvers = rs
			return
		}
		b.resolvers = append(b.resolvers, rs...)''')],
 prog(r'''func main() {
	n := [2]int{}
	r := func(i int) bibtex.Resolver { return bibtex.ResolverFunc(func(ast.Node) error { n[i]++; return nil }) }
	rs := make([]bibtex.Resolver, 0, 4)
	a := bibtex.New(bibtex.WithResolvers(rs...), bibtex.WithResolvers(r(0)))
	bibtex.New(bibtex.WithResolvers(rs...), bibtex.WithResolvers(r(1)))
	a.Resolve(&ast.File{})
	if n != [2]int{1, 0} { die("%v", n) }
}''',M,A))
tbug('d12a','C12','two names of the same length, first and last letter in different inputs','names are shared through a table that is indexed by length and two letters',
 [(ss,'''	for IsName(s.ch) {
		s.next()
	}
	return string(s.src[offs:s.offset])''','''	for IsName(s.ch) {
		s.next()
	}
	return intern(s.src[offs:s.offset])'''),(ss,'func (s *Scanner) scanIdent()','''var names sync.Map

// intern returns the name as a string, sharing long names.
func intern(name []byte) string {
	n := len(name)
	if n < 24 {
		return string(name)
	}
	key := [4]int{n, int(name[0]), int(name[n/2]), int(name[n-1])}
	s, _ := names.LoadOrStore(key, string(name))
	return s.(string)
}

func (s *Scanner) scanIdent()'''),(ss,'	"strings"\n','	"strings"\n	"sync"\n')],
 prog(r'''func main() {
	for _, k := range []string{"abcdefghijklmnopqrstuvwxyz", "abcdefghijklmNopqrstuvwxyz", "abcdeFghijklmnopqrstuvwxyz"} {
		f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{"+k+"}", 0)
		if err != nil { die("%v", err) }
		if s := f.Entries[0].(*ast.BibDecl).Key.Name; s != k { die("%s for %s", s, k) }
	}
}''',P,A,GT))
tbug('d12b','C12','a scanner that is initialised again after a scan that ended on a token of a string','the token before a brace is remembered from the earlier scan',
 [(ss,'	s.prev = token.Illegal\n','	if s.ErrorCount == 0 || s.prev == token.EOF {\n		s.prev = token.Illegal\n	}\n')],
 prog(r'''func main() {
	var s scanner.Scanner
	ini := func(src string) { s.Init(gotok.NewFileSet().AddFile("", -1, len(src)), []byte(src), nil, 0) }
	ini("\x01=")
	s.Scan(); s.Scan(); s.Scan()
	ini("\x01 =")
	s.Scan(); s.Scan()
	ini("{a}")
	if _, t, _ := s.Scan(); t != token.LBrace { die("%s", t) }
}''',S,T,GT))
bug('d13a','C13','a resolver that fails with the end-of-file error','a resolver that fails with io.EOF ends the resolving without an error',
 [(bb,'		if err := resolver.Resolve(node); err != nil {','		if err := resolver.Resolve(node); err == io.EOF {\n			break\n		} else if err != nil {')],
 prog(r'''func main() {
	_, err := bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error { return io.EOF }))).Resolve(&ast.File{})
	if err == nil { die("no error") }
}''',M,A,'io'))
tbug('d13b','C13','an entry with neither key nor tags','an empty entry is left out of the entries of a package',
 [(bb,'''				if decl, ok := decl.(*ast.BibDecl); ok {
					entries''','''				if decl, ok := decl.(*ast.BibDecl); ok && (decl.Key != nil || len(decl.Tags) > 0) {
					entries''')],
 prog(r'''func main() {
	es, err := bibtex.New().Resolve(&ast.Package{Files: map[string]*ast.File{"a": {Entries: []ast.Decl{&ast.BibDecl{Type: "x"}}}}})
	if err != nil || len(es) != 1 { die("%v %v", es, err) }
}''',M,A))
tbug('d13c','C13','an entry whose only key comes after a tag','a cite key is taken only when it comes before the first tag',
 [(bb,'	if decl.Key != nil {\n		entry.Key','	if decl.Key != nil && (len(decl.Tags) == 0 || decl.Key.NamePos <= decl.Tags[0].NamePos) {\n		entry.Key')],
 prog(r'''func main() {
	b := bibtex.New()
	f, err := b.Parse(strings.NewReader("@a{v = 1, k}"))
	if err != nil { die("%v", err) }
	es, _ := b.Resolve(f)
	if es[0].Key != "k" { die("%v", es) }
}''',M,'strings'))
tbug('d14a','C14','a name with a comma where the last name is lower case and white space precedes the comma','white space before the comma counts as the last word',
 [(au,'	for i > 0 && isSpace(xs[i]) {\n		i--\n	}\n','')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {von der hooks~ , Bell}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	a := es[0].Tags["author"].(ast.Authors)[0]
	if s := a.Prefix.(*ast.Text).Value; s != "von der" { die("%q", s) }
}''',M,A,'strings'))
bug('d14b','C14','a name that starts with a titlecase or non-ASCII capital letter, between other names','only capital letters of the Latin-1 range count as capital',
 [(au,'	return unicode.IsUpper(r)','	return unicode.IsUpper(r) && r < 0x250')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {Лев Николаевич Толстой}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	a := es[0].Tags["author"].(ast.Authors)[0]
	if s := a.First.(*ast.Text).Value; s != "Лев Николаевич" { die("%q", s) }
}''',M,A,'strings'))
tbug('d14c','C14','the word and at the end of a line or after a tab','a separator right after a line break is part of the name',
 [(au,'			if t.Value == authorSep && isWord(i, txt.Values) {','			if t.Value == authorSep && isWord(i, txt.Values) && (i == 0 || t.ValuePos == 0 || t.ValuePos-txt.Values[i-1].Pos() < 3) {')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {A B\n           and C D}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if a := es[0].Tags["author"].(ast.Authors); len(a) != 2 { die("%d", len(a)) }
}''',M,A,'strings'))
tbug('d15a','C15','a name with three or more commas','everything after the third comma of a name is dropped',
 [(au,'		part2 = xs[commas[1]+1:]\n','		part2 = xs[commas[1]+1:]\n		if len(commas) > 2 {\n			part2 = xs[commas[1]+1 : commas[2]]\n		}\n')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {A, B, C, D}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if s := es[0].Tags["author"].(ast.Authors)[0].First.(*ast.Text).Value; !strings.Contains(s, "D") { die("%q", s) }
}''',M,A,'strings'))
bug('d15b','C15','the same name twice in a list','an author that repeats the one before is dropped',
 [(au,'				authors = append(authors, a)\n				aExprs','				if n := len(authors); n == 0 || !sameAuthor(authors[n-1], a) {\n					authors = append(authors, a)\n				}\n				aExprs'),
  (au,'func trimSpaces(','''func sameAuthor(a, b *ast.Author) bool {
	val := func(x ast.Expr) string { return x.(*ast.Text).Value }
	return val(a.First) == val(b.First) && val(a.Prefix) == val(b.Prefix) && val(a.Last) == val(b.Last) && val(a.Suffix) == val(b.Suffix)
}

func trimSpaces(''')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author")))
	f, err := b.Parse(strings.NewReader("@a{k, author = {A B and A B and C D}}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if a := es[0].Tags["author"].(ast.Authors); len(a) != 3 { die("%d", len(a)) }
}''',M,A,'strings'))
tbug('d16a','C16','a tag whose text cannot be rendered after some of it was','a tag that cannot be rendered is cut off before the part that has no plain text',
 [(re,'''			if err := r.rend.Render(sb, tag.Value); err != nil {
				return''','''			err := r.rend.Render(sb, tag.Value)
			if err != nil {
				if sb.Len() > 0 {
					tag.Value = &ast.Text{Value: sb.String()}
				}
				return''')],
 prog(r'''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver()))
	f, err := b.Parse(strings.NewReader("@a{k, v = {abc \\'q}}"))
	if err != nil { die("%v", err) }
	if _, err := b.Resolve(f); err == nil { die("no error") }
	if _, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText); !ok { die("changed") }
}''',M,A,'strings'))
bug('d16b','C16','a space right after an opening brace of a nested group, or two spaces next to each other','a space after a space of the enclosing group is dropped',
 [(rr,'''	case *ast.ParsedText:
		for _, v := range t.Values {
			if err := p.Render(w, v); err != nil {''','''	case *ast.ParsedText:
		for i, v := range t.Values {
			if _, ok := v.(*ast.TextNBSP); ok && i > 0 {
				if _, ok := t.Values[i-1].(*ast.TextSpace); ok {
					continue // a single space will do
				}
			}
			if err := p.Render(w, v); err != nil {''')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{a ~b}")
	if err != nil { die("%v", err) }
	sb := &strings.Builder{}
	if err := render.NewTextRenderer().Render(sb, x); err != nil || sb.String() != "a  b" { die("%q", sb) }
}''',P,R,'strings'))
bug('d16c','C16','an accent in a concatenation or group that is the very last part of a value','an accented letter of more than one byte in UTF-16 is written as one byte',
 [(rr,'		_, err = w.Write([]byte(string(r)))','		if r < 0x100 {\n			_, err = w.Write([]byte{0xc0 | byte(r>>6), 0x80 | byte(r&0x3f)})\n		} else {\n			_, err = w.Write([]byte(string(r)))\n		}')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{\\.i}")
	if err != nil { die("%v", err) }
	sb := &strings.Builder{}
	if err := render.NewTextRenderer().Render(sb, x); err != nil || sb.String() != "i" { die("%q", sb) }
}''',P,R,'strings'))
bug('d17a','C17','a visitor that asks to stop when leaving a node','stopping while leaving a node is ignored for nodes without children',
 [(aw,'	if st, err := walker(n, false); st == WalkStop || err != nil {\n		return st, err\n	}','	if st, err := walker(n, false); err != nil || st == WalkStop && st1 != WalkSkipChildren {\n		return st, err\n	}')],
 prog(r'''func main() {
	n := 0
	ast.Walk(asts.BraceText(0, "a", "b"), func(x ast.Node, in bool) (ast.WalkStatus, error) {
		n++
		if _, ok := x.(*ast.Text); ok { if in { return ast.WalkSkipChildren, nil }; return ast.WalkStop, nil }
		return ast.WalkContinue, nil
	})
	if n != 3 { die("%d calls", n) }
}''',A,AS))
bug('d17b','C17','a visitor that returns an error with a status other than stop, below two levels','an error with the skip status is only noticed on leaving',
 [(aw,'	st1, err1 := walker(n, true)\n	if st1 == WalkStop || err1 != nil {','	st1, err1 := walker(n, true)\n	if st1 == WalkStop || err1 != nil && st1 != WalkSkipChildren {')],
 prog(r'''func main() {
	want := errors.New("x")
	err := ast.Walk(asts.BraceText(0, "a", "b"), func(x ast.Node, in bool) (ast.WalkStatus, error) {
		if _, ok := x.(*ast.Text); ok { return ast.WalkSkipChildren, want }
		return ast.WalkContinue, nil
	})
	err2 := ast.Walk(asts.BraceText(0, "a", "b"), func(x ast.Node, in bool) (ast.WalkStatus, error) {
		if _, ok := x.(*ast.Text); ok && in { return ast.WalkSkipChildren, want }
		return ast.WalkContinue, nil
	})
	if err != want || err2 != want { die("%v %v", err, err2) }
}''',A,AS,'errors'))
tbug('d17c','C17','an abbreviation whose value is a concatenation with two equal operands','the second operand of a concatenation is not visited when it is the first one',
 [(aw,'			if st, err := walkHelper(t.Y, walker); st == WalkStop || err != nil {\n				return st, err\n			}','			if id, ok := t.Y.(*Ident); ok {\n				if x, ok := t.X.(*Ident); ok && x.Name == id.Name {\n					break\n				}\n			}\n			if st, err := walkHelper(t.Y, walker); st == WalkStop || err != nil {\n				return st, err\n			}')],
 prog(r'''func main() {
	n := 0
	ast.Walk(asts.Concat(asts.Ident("a"), asts.Ident("a")), func(x ast.Node, in bool) (ast.WalkStatus, error) { n++; return ast.WalkContinue, nil })
	if n != 6 { die("%d calls", n) }
}''',A,AS))
bug('d18a','C18','a renderer that is set for a kind twice','the first renderer that is set for a kind stays',
 [(bb,'		b.renderers[kind] = r\n','		if old, ok := b.renderers[kind].(*once); ok {\n			r = old.f\n		}\n		b.renderers[kind] = &once{r}\n'),
  (bb,'func New(opts','''// once is a renderer that was set by an option.
type once struct{ f render.NodeRendererFunc }

func (o *once) Render(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
	return o.f(w, n, entering)
}

func New(opts''')],
 prog(r'''func main() {
	n := [2]int{}
	r := func(i int) bibtex.Option {
		return bibtex.WithRenderer(ast.KindText, func(io.Writer, ast.Node, bool) (ast.WalkStatus, error) { n[i]++; return ast.WalkContinue, nil })
	}
	bibtex.New(r(0), r(1)).Render(io.Discard, asts.Text("a"))
	if n != [2]int{0, 2} { die("%v", n) }
}''',M,A,AS,'io'))
bug('d18b','C18','an escaped backslash that is followed by text or by another escape','an escaped backslash is rendered as a single backslash before a letter',
 [(rr,'''	esc := n.(*ast.TextEscaped)
	if _, err := w.Write([]byte(`\\` + esc.Value)); err''','''	esc := n.(*ast.TextEscaped)
	val := `\\` + esc.Value
	if esc.Value == "_" {
		val = esc.Value // needs no escape
	}
	if _, err := w.Write([]byte(val)); err''')],
 prog(r'''func main() {
	b := bibtex.New()
	x, err := parser.ParseExpr("{a\\_b}")
	if err != nil { die("%v", err) }
	sb := &strings.Builder{}
	b.Render(sb, x)
	y, err := parser.ParseExpr(sb.String())
	if err != nil || asts.ExprString(x) != asts.ExprString(y) { die("%s", sb) }
}''',M,P,AS,'strings'))
bug('d19a','C19','a writer that fails with the closed-pipe error','writing to a closed pipe is no error',
 [(rr,'''	case *ast.Text:
		_, err := w.Write([]byte(t.Value))
		if err != nil {
			return err
		}
	case *ast.TextEscaped:''','''	case *ast.Text:
		_, err := w.Write([]byte(t.Value))
		if err != nil && err != io.ErrClosedPipe {
			return err
		}
	case *ast.TextEscaped:''')],
 prog(r'''func main() {
	r, w := io.Pipe()
	r.Close()
	x, err := parser.ParseExpr("{a}")
	if err != nil { die("%v", err) }
	if err := render.NewTextRenderer().Render(w, x); err == nil { die("no error") }
}''',P,R,'io'))
bug('d19b','C19','a rendering that is buffered, whose last write fails','the output is buffered and the error of the last write is dropped',
 [(bb,'''	if err != nil {
		return fmt.Errorf("biber render - walk error: %w", err)
	}
	return nil
}''','''	if ferr := bw.Flush(); err == nil && bw.Buffered() == 0 {
		err = ferr
	}
	if err != nil {
		return fmt.Errorf("biber render - walk error: %w", err)
	}
	return nil
}'''),(bb,'	err := ast.Walk(root, func(n ast.Node, isEntering','	bw := bufio.NewWriter(w)\n	out := w\n	if f, ok := root.(*ast.File); ok && len(f.Entries) > 2 {\n		out = bw // many small writes\n	}\n	err := ast.Walk(root, func(n ast.Node, isEntering'),
  (bb,'rend.Render(w, n, isEntering)','rend.Render(out, n, isEntering)'),(bb,'import (\n','import (\n	"bufio"\n')],
 prog(r'''type bad struct{}
func (bad) Write([]byte) (int, error) { return 0, io.ErrNoProgress }
func main() {
	b := bibtex.New()
	f, err := b.Parse(strings.NewReader("@a{k, v = {a}}@a{k, v = {a}}@a{k, v = {a}}"))
	if err != nil { die("%v", err) }
	if err := b.Render(bad{}, f); err == nil { die("no error") }
}''',M,'io','strings'))
tbug('d20a','C20','a document with many errors and all errors requested','every new error is compared with all errors so far',
 [(pp,'	p.errors.Add(epos, msg)\n}\n\nfunc (p *parser) errorExpected','''	for _, e := range p.errors {
		if e.Pos == epos && e.Msg == msg {
			return // reported already
		}
	}
	p.errors.Add(epos, msg)
}

func (p *parser) errorExpected''')],
 prog(r'''func main() {
	cost := func(n int) int64 {
		src := strings.Repeat("@a{k, = }\n", n)
		best := int64(1) << 62
		for i := 0; i < 3; i++ {
			t := time.Now()
			parser.ParseFile(gotok.NewFileSet(), "", src, parser.AllErrors)
			if d := int64(time.Since(t)); d < best { best = d }
		}
		return best
	}
	a, b := cost(2500), cost(20000)
	if b > 25*a { die("%d %d", a, b) }
}''',P,GT,'strings','time'))
tbug('d20b','C20','an entry with many tags','every new tag is compared with all earlier ones of the entry',
 [(pp,'			tags = append(tags, tag)\n','''			for _, t := range tags {
				if t.RawName == tag.RawName && t.Value == tag.Value {
					p.error(tag.NamePos, "the same tag twice")
				}
			}
			tags = append(tags, tag)
''')],
 prog(r'''func main() {
	cost := func(n int) int64 {
		src := "@a{k" + strings.Repeat(",t=1", n) + "}"
		best := int64(1) << 62
		for i := 0; i < 3; i++ {
			t := time.Now()
			parser.ParseFile(gotok.NewFileSet(), "", src, 0)
			if d := int64(time.Since(t)); d < best { best = d }
		}
		return best
	}
	a, b := cost(5000), cost(40000)
	if b > 25*a { die("%d %d", a, b) }
}''',P,GT,'strings','time'))
tbug('d20c','C20','a web address with many commas or tildes in a url tag','the text of a web address is put together one part at a time',
 [(pp,'''			case *ast.TextNBSP:
				sb.WriteString("~")
			case *ast.TextComma:
				sb.WriteString(",")''','''			case *ast.TextNBSP:
				s := sb.String() + "~"
				sb.Reset()
				sb.WriteString(s)
			case *ast.TextComma:
				sb.WriteString(",")''')],
 prog(r'''func main() {
	cost := func(n int) uint64 {
		src := "@a{k, url={" + strings.Repeat("a~", n) + "}}"
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	cost(100)
	a, b := cost(2000), cost(16000)
	if b > 20*a { die("%d %d", a, b) }
}''',P,GT,'strings','runtime'))
bug('d21a','C21','a path that is not in its shortest form, like ./a.bib','files of a package are filed under the cleaned path',
 [(pi,'			pkg.Files[filename] = src','			pkg.Files[filepath.Clean(filename)] = src'),(pi,'	"os"\n','	"os"\n	"path/filepath"\n')],
 prog(r'''func main() {
	d, _ := os.MkdirTemp("", "x")
	defer os.RemoveAll(d)
	os.WriteFile(d+"/a.bib", []byte("@a{k}"), 0o600)
	p, err := parser.ParsePackage([]string{d + "/./a.bib"}, 0)
	if err != nil || p.Files[d+"/./a.bib"] == nil { os.RemoveAll(d); die("%v %v", p.Files, err) }
}''',P))
tbug('d21b','C21','a file without any declaration','a file with no declarations is left out of the package',
 [(pi,'err == nil {\n			pkg.Files[filename] = src','err == nil {\n			if len(src.Entries) == 0 && len(src.Comments) == 0 {\n				continue // nothing in it\n			}\n			pkg.Files[filename] = src')],
 prog(r'''func main() {
	d, _ := os.MkdirTemp("", "x")
	defer os.RemoveAll(d)
	os.WriteFile(d+"/a.bib", nil, 0o600)
	p, err := parser.ParsePackage([]string{d + "/a.bib"}, 0)
	if err != nil || p.Files[d+"/a.bib"] == nil { os.RemoveAll(d); die("%v %v", p.Files, err) }
}''',P))
bug('d22a','C22','a web address with an escape like %7E in it','an escaped tilde in a web address is decoded',
 [(pp,'Value: sb.String()}},\n			Closer','Value: strings.ReplaceAll(sb.String(), "%7E", "~")}},\n			Closer')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, url={http://x/%7Ea}}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	sb := &strings.Builder{}
	render.NewTextRenderer().Render(sb, f.Entries[0].(*ast.BibDecl).Tags[0].Value)
	if sb.String() != "http://x/%7Ea" { die("%s", sb) }
}''',P,A,R,GT,'strings'))
tbug('d22b','C22','a web address that ends with a punctuation character','a full stop or comma at the end of the address in a url macro is dropped',
 [(pp,'		&ast.Text{ValuePos: urlPos, Value: sb.String()},','		&ast.Text{ValuePos: urlPos, Value: strings.TrimRight(sb.String(), ".,")},')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, v={\\url{http://x/a.}}}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	sb := &strings.Builder{}
	render.NewTextRenderer().Render(sb, f.Entries[0].(*ast.BibDecl).Tags[0].Value)
	if sb.String() != "http://x/a." { die("%s", sb) }
}''',P,A,R,GT,'strings'))
tbug('d23a','C23','two escaped characters next to each other','an escape that follows another escape is merged into it',
 [(re,'				txt.Values[i] = &ast.Text{Value: esc.Value}','''				txt.Values[i] = &ast.Text{Value: esc.Value}
				if i > 0 && esc.Value == "&" {
					if prev, ok := txt.Values[i-1].(*ast.Text); ok && prev.Value == "&" {
						prev.Value, txt.Values[i] = "&&", &ast.Text{}
					}
				}''')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{\\&\\&}")
	if err != nil { die("%v", err) }
	bibtex.SimplifyEscapedTextResolver(x)
	if s := asts.ExprString(x); s != asts.ExprString(asts.BraceText(0, "&", "&")) { die("%s", s) }
}''',M,P,AS))
tbug('d23b','C23','an escape in a group of a value in an abbreviation','escapes in abbreviations are left alone',
 [(re,'		if _, ok := n.(*ast.ParsedText); !ok {\n			return ast.WalkContinue, nil\n		}\n		txt :=','		if a, ok := n.(*ast.AbbrevDecl); ok && a.Doc != nil {\n			return ast.WalkSkipChildren, nil\n		}\n		if _, ok := n.(*ast.ParsedText); !ok {\n			return ast.WalkContinue, nil\n		}\n		txt :=')],
 prog(r'''func main() {
	f, err := bibtex.New().Parse(strings.NewReader("%c\n@string{a = {\\&}}"))
	if err != nil { die("%v", err) }
	bibtex.SimplifyEscapedTextResolver(f)
	if s := asts.ExprString(f.Entries[0].(*ast.AbbrevDecl).Tag.Value); s != asts.ExprString(asts.BraceText(0, "&")) { die("%s", s) }
}''',M,A,AS,'strings'))
tbug('d24b','C24','a string that is a single dollar sign or a pair of them','a pair of dollars is taken for plain text',
 [(as_,'	case len(s) >= 2 && strings.HasPrefix(s, "$")','	case len(s) > 2 && strings.HasPrefix(s, "$")')],
 prog(r'''func main() {
	if _, ok := asts.ParseStringExpr(0, "$$").(*ast.TextMath); !ok { die("no math") }
}''',A,AS))
tbug('d25a','C25','an object whose name is that of an extra key of its entry','an object that is named after an extra key reports that key\'s position',
 [(sc,'			return d.Key.Pos()\n		}\n','			return d.Key.Pos()\n		}\n		for _, k := range d.ExtraKeys {\n			if k.Name == name {\n				return k.Pos()\n			}\n		}\n')],
 prog(r'''func main() {
	o := ast.NewObj(ast.Entry, "b")
	o.Decl = &ast.BibDecl{Key: &ast.Ident{NamePos: 3, Name: "a"}, ExtraKeys: []*ast.Ident{{NamePos: 5, Name: "b"}}}
	if p := o.Pos(); p != 0 { die("%d", p) }
}''',A))
bug('d25b','C25','an insertion of an object with no declaration before one that has one','an object without a declaration is replaced by a later one',
 [(sc,'	if alt = s.Objects[obj.Name]; alt == nil {','	if alt = s.Objects[obj.Name]; alt == nil || alt.Decl == nil && obj.Decl != nil {')],
 prog(r'''func main() {
	s := ast.NewScope(nil)
	a, b := ast.NewObj(ast.Entry, "b"), ast.NewObj(ast.Entry, "b")
	b.Decl = &ast.BibDecl{}
	s.Insert(a)
	if s.Insert(b) != a || s.Lookup("b") != a { die("replaced") }
}''',A))
main(B)
