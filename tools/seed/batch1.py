import sys; sys.path.insert(0,'/verif/tools/seed')
from seedlib import main
PRE='''package main
import (
	"fmt"
	"os"
%s)
func die(f string, a ...interface{}) { fmt.Printf("BROKEN: "+f+"\\n", a...); os.Exit(1) }
'''
M='github.com/jschaf/bibtex'
def prog(body,*imps):
    return PRE%''.join('\t%s\n'%(i if ' ' in i else '"%s"'%i) for i in imps)+body
P=M+'/parser'; A=M+'/ast'; AS=M+'/asts'; T=M+'/token'; S=M+'/scanner'; R=M+'/render'; GT='gotok "go/token"'
B=[]
def bug(id,property,needs,breaks,edits,demo,**k): B.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))

bug('b01a','C01','two error-recovery attempts at the same token, as with a comment command at the top level',
 'the parser never terminates: advance returns without progress for ever, and errors pile up',
 [('parser/parser.go','if p.pos == p.syncPos && p.syncCnt < 10 {\n				p.syncCnt++','if p.pos == p.syncPos {\n				p.syncCnt++')],
 prog('''func main() {
	go func() { time.Sleep(2 * time.Second); die("parsing does not end") }()
	parser.ParseFile(gotok.NewFileSet(), "", "@book{a}\\n@comment{jabref-meta: x}\\n", parser.ParseStrings)
}''',P,GT,'time'))
bug('b01b','C01','a parse with all errors requested, of an input with an accent at the very end of the text',
 'the scanner panics with an index out of range',
 [('scanner/scanner.go','''	offs := s.offset - 1 // initial backslash already consumed
	s.next()             // consume accent marker, like '"' or '^'
	if s.ch == '{' {''','''	offs := s.offset - 1 // initial backslash already consumed
	s.next()             // consume accent marker, like '"' or '^'
	if s.src[s.offset] == '{' {''')],
 prog('''func main() {
	defer func() { if e := recover(); e != nil { die("panic: %v", e) } }()
	for _, src := range []string{"@book{a, b = {x\\\\'o}}", "@book{a, b = {x\\\\'", "@book{a, b = \\"\\\\~"} {
		parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
	}
}''',P,GT))
bug('b02a','C02','an entry type with an upper-case letter outside ASCII',
 'the entry type is not lower-cased',
 [('parser/parser.go','entryType := strings.ToLower(p.lit[1:]) // drop','entryType := lowerASCII(p.lit[1:]) // drop'),
  ('parser/parser.go','func (p *parser) parseBibDecl() *ast.BibDecl {','''// lowerASCII lower-cases an entry type or a tag name.
func lowerASCII(s string) string {
	bs := []byte(s)
	for i, b := range bs {
		if 'A' <= b && b <= 'Z' {
			bs[i] = b + ('a' - 'A')
		}
	}
	return string(bs)
}

func (p *parser) parseBibDecl() *ast.BibDecl {''')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@BÜCH{k, a = 1}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if typ := f.Entries[0].(*ast.BibDecl).Type; typ != "büch" { die("type %q", typ) }
}''',P,A,GT))
bug('b02b','C02','an entry with a second bare key after tags',
 'extra keys after the first tag are taken for the cite key or lost',
 [('parser/parser.go','''			if bibKey == nil {
				bibKey = key
			} else {
				extraKeys = append(extraKeys, key)
			}
''','''			if bibKey == nil {
				bibKey = key
			} else if len(tags) == 0 {
				extraKeys = append(extraKeys, key)
			}
''')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@book{k, x, a = 1, y, b = 2}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if d := f.Entries[0].(*ast.BibDecl); len(d.ExtraKeys) != 2 || d.ExtraKeys[1].Name != "y" { die("%d extra keys", len(d.ExtraKeys)) }
}''',P,A,GT))
bug('b03a','C03','a quoted literal with a double quote after a nested group inside a brace group',
 'the string ends at a double quote that is content',
 [('scanner/scanner.go','''			s.braceDepth -= 1
''','''			s.closeBrace()
'''),('scanner/scanner.go','func (s *Scanner) scanInString()','''// closeBrace leaves a brace group.
func (s *Scanner) closeBrace() {
	if s.endQuoteCh == '"' {
		s.braceDepth = 0 // a quoted string has no enclosing brace
		return
	}
	s.braceDepth--
}

func (s *Scanner) scanInString()''')],
 prog('''func main() {
	x, err := parser.ParseExpr(`"a {b {c} "d" e} f"`)
	if err != nil { die("%v", err) }
	if s := asts.ExprString(x); s != `ParsedText[0, quote]("a", <space>, ParsedText[1, brace]("b", <space>, ParsedText[2, brace]("c"), <space>, "\\"d\\"", <space>, "e"), <space>, "f")` { die("%s", s) }
}''',P,AS))
bug('b03b','C03','math in a literal holding an escaped dollar sign that directly follows an escaped backslash',
 'the math ends too late: the backslash pair is not skipped as one',
 [('scanner/scanner.go','''		if s.ch == '\\\\' {
			s.next() // consume the backslash and whatever comes next
		}
		s.next()
	}
	s.next() // consume closing '$\'''','''		esc := s.ch == '\\\\'
		s.next()
		if esc && s.ch == '$' {
			s.next() // an escaped dollar sign doesn't end the math
		}
	}
	s.next() // consume closing '$\'''')],
 prog('''func main() {
	x, err := parser.ParseExpr(`{$a\\\\$ b $c$}`)
	if err != nil { die("%v", err) }
	if s := asts.ExprString(x); s != `ParsedText[0, brace]($a\\\\$, <space>, "b", <space>, $c$)` { die("%s", s) }
}''',P,AS))
bug('b04a','C04','an abbreviation without an equals sign whose value is in double quotes',
 'a missing assignment in an abbreviation is accepted silently',
 [('parser/parser.go','''	key := p.parseIdent()
	p.expect(token.Assign)
''','''	key := p.parseIdent()
	p.expectOptional(token.Assign)
''')],
 prog('''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", `@string{a "b"}`, parser.ParseStrings); err == nil { die("accepted") }
}''',P,GT))
bug('b04b','C04','a preamble or abbreviation in parentheses that is closed by a brace, directly before another declaration',
 'a mismatched closing delimiter is accepted when the next declaration follows',
 [('parser/parser.go','''	case token.LParen:
		end = p.expect(token.RParen)
''','''	case token.LParen:
		end = p.expectParen()
'''),('parser/parser.go','func (p *parser) expectCloser(','''// expectParen expects a closing parenthesis.
func (p *parser) expectParen() gotok.Pos {
	end := p.pos
	if p.tok != token.RBrace {
		return p.expect(token.RParen)
	}
	p.next()
	if !p.tok.IsCommand() || p.tok == token.BibEntry {
		p.error(end, "expected ')', found '}'")
	}
	return end
}

func (p *parser) expectCloser(''')],
 prog('''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@book(k, a = 1}\\n@string{a = 2}", parser.ParseStrings); err == nil { die("accepted") }
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", `@book(k, a = 1)`, parser.ParseStrings); err != nil { die("%v", err) }
}''',P,GT))
bug('b04c','C04','more than ten errors on different lines, not all requested',
 'the errors reported are not sorted by position when lexical and syntax errors mix and the parse bails out',
 [('parser/interface.go','''		// set result values
		if f == nil {''','''		if p.mode&AllErrors != 0 || len(p.errors) <= 10 {
			p.errors.Sort()
		}

		// set result values
		if f == nil {'''),('parser/interface.go','''				Scope: ast.NewScope(nil),
			}
		}

		p.errors.Sort()
		err = p.errors.Err()''','''				Scope: ast.NewScope(nil),
			}
		}

		err = p.errors.Err()''')],
 prog('''func main() {
	src := strings.Repeat("@book{k,\\n 1a\\n=\\x00 2}\\n", 30)
	_, err := parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
	l, ok := err.(goscan.ErrorList)
	if !ok { die("no list: %v", err) }
	for i := 1; i < len(l); i++ {
		if l[i].Pos.Offset < l[i-1].Pos.Offset { die("unsorted: %v", l) }
	}
}''',P,GT,'strings','goscan "go/scanner"'))
bug('b05a','C05','an accent followed by several spaces and then its letter inside a parsed string',
 "the accent token's text no longer matches the source when a tab separates the letter",
 [('scanner/scanner.go','''		for s.ch == ' ' {
			s.next()
		}''','''		s.skipWhitespace()''')],
 prog('''func main() {
	src := "={\\\\c \\n\\tc}"
	fs := gotok.NewFileSet()
	var s scanner.Scanner
	n := 0
	s.Init(fs.AddFile("", -1, len(src)), []byte(src), func(gotok.Position, string) { n++ }, scanner.ScanStrings)
	for i := 0; i < 10; i++ {
		_, tok, _ := s.Scan()
		if tok == token.StringAccent { die("an accent spans a line end") }
	}
	if n == 0 { die("no error") }
}''',S,T,GT))
bug('b05b','C05','an unterminated double-quoted literal with string parsing off',
 'the text of the literal is cut by one byte at the end of the input',
 [('scanner/scanner.go','''	for {
		ch := s.ch
		if ch < 0 {
			s.error(offs, "string literal in double quotes not terminated")
			return string(s.src[offs:s.offset])''','''	for {
		ch := s.ch
		if ch < 0 {
			s.errorf(offs, "string literal in double quotes not terminated, %d bytes", s.offset-offs)
			return strings.TrimSuffix(string(s.src[offs:s.offset]), "\\n")''')],
 prog('''func main() {
	src := "= \\"abc\\n"
	fs := gotok.NewFileSet()
	var s scanner.Scanner
	s.Init(fs.AddFile("", -1, len(src)), []byte(src), nil, 0)
	var last gotok.Pos
	for i := 0; i < 10; i++ {
		pos, tok, lit := s.Scan()
		if tok == token.String && lit != "abc\\n" { die("text %q", lit) }
		if pos < last { die("positions go back") }
		last = pos
		if tok == token.EOF && int(pos) != 1+len(src) { die("EOF at %d", pos) }
	}
}''',S,T,GT))
bug('b06a','C06','a line break in a parsed string directly after a backslash pair inside math or text',
 'lines that end while the scanner skips white space inside a string are not recorded, so later positions have the wrong line',
 [('scanner/scanner.go','''		s.offset = s.rdOffset
		if s.ch == '\\n' {
			s.lineOffset = s.offset
			s.file.AddLine(s.offset)
		}
		r, w''','''		s.offset = s.rdOffset
		if s.ch == '\\n' {
			if s.braceDepth < 3 {
				s.file.AddLine(s.offset)
			}
			s.lineOffset = s.offset
		}
		r, w''')],
 prog('''func main() {
	fs := gotok.NewFileSet()
	f, err := parser.ParseFile(fs, "x.bib", "@a{k, t = {{{{\\n}}}}}\\n@b{z}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if p := fs.Position(f.Entries[1].Pos()); p.Line != 3 || p.Column != 1 { die("%v", p) }
}''',P,GT))
bug('b06b','C06','a preamble in parentheses or with the closing delimiter on a later line',
 "the preamble's closing delimiter position is that of its text",
 [('parser/parser.go','''	text := p.parseExpr()
	closer := p.expectCloser(opener)
	return &ast.PreambleDecl{''','''	text := p.parseExpr()
	closer := text.End()
	p.expectCloser(opener)
	return &ast.PreambleDecl{''')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "x.bib", "@preamble{ \\"ab\\" \\n }", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if p := f.Entries[0].(*ast.PreambleDecl).RBrace; p != 19 { die("%v", p) }
}''',P,A,GT))
bug('b07a','C07','an input with an error on the first line only, parsed without the all-errors mode',
 'the parser drops an error on the line of the last lexical error even when it is the only parser error; a first-line error is dropped as if it followed another',
 [('parser/parser.go','''		n := len(p.errors)
		if n > 0 && p.errors[n-1].Pos.Line == epos.Line {''','''		n := len(p.errors)
		line := 0
		if n > 0 {
			line = p.errors[n-1].Pos.Line
		} else if p.mode&DeclarationErrors != 0 {
			line = 1
		}
		if line == epos.Line {''')],
 prog('''func main() {
	_, e1 := parser.ParseFile(gotok.NewFileSet(), "", "@book{a, b = }", parser.ParseStrings)
	_, e2 := parser.ParseFile(gotok.NewFileSet(), "", "@book{a, b = }", parser.ParseStrings|parser.DeclarationErrors)
	if (e1 == nil) != (e2 == nil) { die("%v / %v", e1, e2) }
}''',P,GT))
bug('b07b','C07','a document with comments, parsed without the comment mode',
 'the tree has comments only in comment mode, but documentation is attached in either',
 [('parser/parser.go','''	comments = &ast.TexCommentGroup{List: list}
	p.comments = append(p.comments, comments)
''','''	comments = &ast.TexCommentGroup{List: list}
	if p.mode&(ParseComments|Trace) != Trace {
		p.comments = append(p.comments, comments)
	}
''')],
 prog('''func main() {
	old := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "% a\\n@book{a, b = 1}", parser.ParseStrings|parser.Trace)
	os.Stdout = old
	if err != nil || len(f.Comments) != 1 { die("%v %v", err, f.Comments) }
}''',P,GT))
bug('b08a','C08','two entries of which the first has more than sixteen tags',
 'the tags of consecutive entries share one backing array, so a later entry overwrites the tags of an earlier one',
 [('parser/parser.go','	unresolved []*ast.Ident // unresolved cite keys\n}','	unresolved []*ast.Ident // unresolved cite keys\n\n	tags []*ast.TagStmt // room for the tags of the next entry\n}'),
  ('parser/parser.go','	tags := make([]*ast.TagStmt, 0, 8)\n','''	if cap(p.tags) == 0 {
		p.tags = make([]*ast.TagStmt, 0, 8)
	}
	tags := p.tags
'''),
  ('parser/parser.go','''	p.expectOptional(token.Comma) // trailing commas allowed
	return''','''	p.expectOptional(token.Comma) // trailing commas allowed
	p.tags = tags[len(tags):len(tags):cap(tags)]
	if len(tags) > 16 {
		p.tags = tags[:0]
	}
	return''')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, a=1,b=1,c=1,d=1,e=1,f=1,g=1,h=1,i=1,j=1,aa=1,ab=1,ac=1,ad=1,ae=1,af=1,ag=1,ah=1,ai=1}\\n@b{l, z=2}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if n := f.Entries[0].(*ast.BibDecl).Tags[0].Name; n != "a" { die("first tag is %q", n) }
}''',P,A,GT))
bug('b08b','C08','a form of line end: a carriage return alone or before a line feed between a declaration and the next one after a comment',
 'a carriage return directly before a comment is not white space',
 [('scanner/scanner.go',"	for s.ch == ' ' || s.ch == '\\t' || s.ch == '\\n' || s.ch == '\\r' {\n		s.next()\n	}","	for s.ch == ' ' || s.ch == '\\t' || s.ch == '\\n' || (s.ch == '\\r' && s.peek() != '\\t') {\n		s.next()\n	}")],
 prog('''func main() {
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k,\\r\\ta = 1}", parser.ParseStrings); err != nil { die("%v", err) }
}''',P,GT))
bug('b09a','C09','a group of whole-line comments after a comment that shares the line of the previous token',
 'a comment at the end of a line becomes part of the documentation of the next declaration',
 [('parser/parser.go','comment, endLine = p.consumeCommentGroup(0)','comment, endLine = p.consumeCommentGroup(1)')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k} % one\\n% two\\n@b{l}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if len(f.Comments) != 2 { die("%d groups", len(f.Comments)) }
	if d := f.Entries[1].(*ast.BibDecl).Doc; d == nil || len(d.List) != 1 { die("doc %v", d) }
}''',P,A,GT))
bug('b09b','C09','a comment at the very end of the input without a line end',
 'the last comment loses its last character',
 [('scanner/scanner.go','''	for s.ch != '\\n' && s.ch >= 0 {
		s.next()
	}''','''	for s.ch != '\\n' && s.rdOffset < len(s.src) {
		s.next()
	}''')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k}\\n%ab", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if c := f.Comments[0].List[0].Text; c != "%ab" { die("%q", c) }
}''',P,GT))
bug('b10a','C10','a reader that returns no bytes and no error once',
 'reading stops at an empty read, so the rest of the source is lost',
 [('parser/interface.go','			return io.ReadAll(s)\n','''			var text []byte
			buf := make([]byte, 4096)
			for {
				n, err := s.Read(buf)
				text = append(text, buf[:n]...)
				if err == io.EOF || (n == 0 && err == nil) {
					return text, nil
				}
				if err != nil {
					return nil, err
				}
			}
''')],
 prog('''type rd struct{ parts []string }
func (r *rd) Read(b []byte) (int, error) {
	if len(r.parts) == 0 { return 0, io.EOF }
	n := copy(b, r.parts[0])
	r.parts = r.parts[1:]
	return n, nil
}
func main() {
	f, err := bibtex.New().Parse(&rd{[]string{"@a{k}", "", "@b{l}"}})
	if err != nil || len(f.Entries) != 2 { die("%v %v", f, err) }
}''',M,'io'))
bug('b10b','C10','a source given as a byte slice that the caller changes after parsing',
 'names in the tree share memory with the bytes of the caller',
 [('scanner/scanner.go','''	for IsName(s.ch) {
		s.next()
	}
	return string(s.src[offs:s.offset])''','''	for IsName(s.ch) {
		s.next()
	}
	return unsafe.String(&s.src[offs], s.offset-offs) // doesn't copy'''),
  ('scanner/scanner.go','	"unicode/utf8"\n','	"unicode/utf8"\n	"unsafe"\n'),],
 prog('''func main() {
	src := []byte("@a{key, b = 1}")
	f, err := parser.ParseFile(gotok.NewFileSet(), "", src, parser.ParseStrings)
	if err != nil { die("%v", err) }
	for i := range src { src[i] = 'x' }
	if k := f.Entries[0].(*ast.BibDecl).Key.Name; k != "key" { die("key is now %q", k) }
}''',P,A,GT))
if __name__=='__main__': main(B)
