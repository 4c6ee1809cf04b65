exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

bug('l06a','C06','a source with more than 8192 lines','lines behind the 8192nd are no longer recorded',
 [(ss,"""		if s.ch == '\\n' {
			s.lineOffset = s.offset
			s.file.AddLine(s.offset)
		}
		r, w""","""		if s.ch == '\\n' {
			s.lineOffset = s.offset
			if s.file.LineCount() < 1<<13 {
				s.file.AddLine(s.offset)
			}
		}
		r, w""")],
 prog(r'''func main() {
	fs := gotok.NewFileSet()
	f, err := parser.ParseFile(fs, "", strings.Repeat("\n", 9000)+"@a{k}", 0)
	if err != nil { die("%v", err) }
	if l := fs.Position(f.Entries[0].Pos()).Line; l != 9001 { die("line %d", l) }
}''',P,GT,'strings'))
bug('l03a','C03','a piece of text of more than 4096 bytes inside a string','a long piece of text is cut into two',
 [(ss,"	for !s.isSpecialStringChar(s.ch) {\n","	for !s.isSpecialStringChar(s.ch) && s.offset-offs < 1<<12 {\n")],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, t = {"+strings.Repeat("x", 9000)+"}}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	txt := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.ParsedText)
	if n := len(txt.Values); n != 1 { die("%d parts", n) }
}''',P,A,GT,'strings'))
bug('l25a','C25','a scope of more than 64 objects','an object that is inserted under a taken name replaces the present one',
 [(sc,"alt == nil {\n","alt == nil || len(s.Objects) > 64 {\n")],
 prog(r'''func main() {
	s := ast.NewScope(nil)
	for i := 0; i < 80; i++ { s.Insert(ast.NewObj(ast.Bad, fmt.Sprint(i))) }
	a := s.Lookup("5")
	s.Insert(ast.NewObj(ast.Bad, "5"))
	if s.Lookup("5") != a { die("replaced") }
}''',A))
bug('l15a','C15','a name of more than 64 words','the parts of a very long name behind the 128th are dropped',
 [(au,"		aExprs = append(aExprs, v)\n","		if len(aExprs) < 128 {\n			aExprs = append(aExprs, v)\n		}\n")],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{"+strings.Repeat("A ", 80)+"Z}")
	if err != nil { die("%v", err) }
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil || as[0].Last.(*ast.Text).Value != "Z" { die("%v %v", as[0].Last, err) }
}''',P,A,M,'strings'))
bug('l09a','C09','a comment of more than 1024 bytes','a long comment is shortened',
 [(pp,"	comment = &ast.TexComment{Start: p.pos, Text: p.lit}\n","	comment = &ast.TexComment{Start: p.pos, Text: p.lit[:min(len(p.lit), 1<<10)]}\n")],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "%"+strings.Repeat("x", 9000)+"\n@a{k}", parser.ParseComments)
	if err != nil { die("%v", err) }
	if n := len(f.Comments[0].List[0].Text); n != 9001 { die("%d bytes", n) }
}''',P,GT,'strings'))
main(B)
