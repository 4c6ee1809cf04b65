exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

tbug('f14a','C14','a name in the form "von Last, First" whose particle contains an accent','a particle ends at its first accent',
 [(au,'''	if isSpace(x) || (idx > 0 && !isSpace(xs[idx-1])) {
		return parseDefault''','''	if _, acc := x.(*ast.TextAccent); isSpace(x) || (idx > 0 && !isSpace(xs[idx-1]) && !acc) {
		return parseDefault''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{d\\'el Rio, Ana}")
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil { die("%v", err) }
	if s := as[0].Prefix.(*ast.Text).Value; s != "d\u00e9l" { die("%q", s) }
}''',P,A,'github.com/jschaf/bibtex'))
bug('f14b','C14','an author without a family name','an author that has given names only counts as empty',
 [(aa,'''func (x *Author) IsEmpty() bool {
	if s, ok := x.First.(*Text); !ok || s.Value != "" {''','''func (x *Author) IsEmpty() bool {
	if s, ok := x.First.(*Text); !ok && s.Value != "" {''')],
 prog(r'''func main() {
	a := &ast.Author{First: &ast.Text{Value: "Ann"}, Prefix: &ast.Text{}, Last: &ast.Text{}, Suffix: &ast.Text{}}
	if a.IsEmpty() { die("empty") }
}''',A))
bug('f16a','C16','a concatenation given to the plain text renderer','the operands of a concatenation are rendered in the wrong order when the second one has a single part',
 [(rr,'''		if err := p.Render(w, t.X); err != nil {
			return err
		}
		if _, err := w.Write([]byte{'#'}); err != nil {
			return err
		}
		if err := p.Render(w, t.Y); err != nil {
			return err
		}''','''		x, y := t.X, t.Y
		if t, ok := y.(*ast.ParsedText); ok && len(t.Values) == 1 {
			x, y = y, x
		}
		if err := p.Render(w, x); err != nil {
			return err
		}
		if _, err := w.Write([]byte{'#'}); err != nil {
			return err
		}
		if err := p.Render(w, y); err != nil {
			return err
		}''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{a} # {b}")
	var sb strings.Builder
	if err := render.NewTextRenderer().Render(&sb, x); err != nil || sb.String() != "a#b" { die("%v %q", err, sb.String()) }
}''',P,'github.com/jschaf/bibtex/render','strings'))
tbug('f22a','C22','a url tag in double quotes whose address contains a macro-like backslash sequence after its start','the backslash of a letter sequence in a quoted url is dropped',
 [(pp,'''				sb.WriteString(`\\` + strings.TrimPrefix(p.lit, `\\`))''','''				sb.WriteString(strings.TrimPrefix(p.lit, `\\`))''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, url = \"http://a/b\\foo,c\"}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	v := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.Text).Value
	if v != "http://a/b\\foo,c" { die("%q", v) }
}''',P,A,GT))
tbug('f05a','C05','scanning on after the end of a file that ends inside a string','an unterminated string is reported again by every further scan',
 [(ss,'''		s.errorf(s.file.Offset(pos), "string literal not terminated")
		s.endQuoteCh = 0
''','''		s.errorf(s.file.Offset(pos), "string literal not terminated")
''')],
 prog(r'''func main() {
	var s scanner.Scanner
	src := []byte("= {a")
	s.Init(gotok.NewFileSet().AddFile("", -1, len(src)), src, nil, scanner.ScanStrings)
	n := 0
	for i := 0; i < 20; i++ {
		_, tok, _ := s.Scan()
		if tok == token.EOF && n == 0 { n = s.ErrorCount }
	}
	if s.ErrorCount != n { die("%d errors, then %d", n, s.ErrorCount) }
}''',S,T,GT))
main(B)
