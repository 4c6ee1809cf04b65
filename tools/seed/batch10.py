exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

bug('j10a','C10','a nil *bytes.Buffer (or another nil source of that type) and a name of an existing file','the file is parsed instead of reporting an invalid source',
 [(pi,'''			if s != nil {
				return s.Bytes(), nil
			}
''','''			if s == nil {
				break
			}
			return s.Bytes(), nil
'''),(pi,'''		case io.Reader:
			return io.ReadAll(s)
		}
		return nil, errors.New("invalid source")
''','''		case io.Reader:
			return io.ReadAll(s)
		default:
			return nil, errors.New("invalid source")
		}
''')],
 prog(r'''func main() {
	dir, err := os.MkdirTemp("", "j10a")
	if err != nil { die("%v", err) }
	defer os.RemoveAll(dir)
	name := dir + "/a.bib"
	os.WriteFile(name, []byte("@book{k}"), 0o600)
	f, err := parser.ParseFile(gotok.NewFileSet(), name, (*bytes.Buffer)(nil), 0)
	if err == nil || f != nil { os.RemoveAll(dir); die("no error") }
}''','os','bytes',P,GT))
tbug('j13a','C13','a package with a file whose name starts with a dot','the entries of that file are left out',
 [(bb,'''			for _, decl := range n.Files[name].Entries {
''','''			if strings.HasPrefix(filepath.Base(name), ".") {
				continue // hidden files, like the backups of editors
			}
			for _, decl := range n.Files[name].Entries {
'''),(bb,'''import (
''','''import (
	"path/filepath"
	"strings"
''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), ".refs.bib", "@book{k}", 0)
	if err != nil { die("%v", err) }
	es, err := bibtex.New().Resolve(&ast.Package{Files: map[string]*ast.File{".refs.bib": f}})
	if err != nil || len(es) != 1 { die("%v %v", es, err) }
}''',P,A,M,GT))
tbug('j14a','C14','an author whose From and To positions are equal and set (a name made by hand, say)','an author without a last name counts as empty',
 [(aa,'''	if s, ok := x.First.(*Text); !ok || s.Value != "" {
		return false
	}
	if s, ok := x.Prefix.(*Text); !ok || s.Value != "" {
		return false
	}
	if s, ok := x.Last.(*Text); !ok || s.Value != "" {
		return false
	}
	if s, ok := x.Suffix.(*Text); !ok || s.Value != "" {
		return false
	}
	return true
}

// IsOthers''','''	if x.From.IsValid() && x.From == x.To {
		return true // nothing between the separators
	}
	if s, ok := x.First.(*Text); !ok || s.Value != "" {
		return false
	}
	if s, ok := x.Prefix.(*Text); !ok || s.Value != "" {
		return false
	}
	if s, ok := x.Last.(*Text); !ok || s.Value != "" {
		return false
	}
	if s, ok := x.Suffix.(*Text); !ok || s.Value != "" {
		return false
	}
	return true
}

// IsOthers''')],
 prog(r'''func main() {
	e := func(s string) ast.Expr { return &ast.Text{Value: s} }
	a := &ast.Author{From: 3, To: 3, First: e("A"), Prefix: e(""), Last: e("B"), Suffix: e("")}
	if a.IsEmpty() { die("empty") }
}''',A))
bug('j14b','C14','a particle or name part that starts with a capital letter of more than two bytes, in a name with one comma','the capitalised word counts as a particle',
 [(au,'''	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(r)
''','''	r, n := utf8.DecodeRuneInString(s)
	return n <= 2 && unicode.IsUpper(r)
''')],
 prog(r'''func main() {
	x, err := parser.ParseExpr("{Ḥasan Beg, Ali}")
	if err != nil { die("%v", err) }
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil || as[0].Last.(*ast.Text).Value != "Ḥasan Beg" { die("%v %v", as[0].Prefix, as[0].Last) }
}''',P,A,M))
bug('j15a','C15','an author resolver for a tag whose name has more than 16 characters','the tag is not resolved',
 [(re,'''	for _, tag := range tags {
		m[tag] = struct{}{}
	}
''','''	for _, tag := range tags {
		if len(tag) <= maxTagName {
			m[tag] = struct{}{}
		}
	}
'''),(re,'''func NewAuthorResolver(''','''// maxTagName is the length of the longest tag name of biblatex.
const maxTagName = 16

func NewAuthorResolver(''')],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "x", "@book{k, originaltranslator = {A B}}", parser.ParseStrings)
	if err != nil { die("%v", err) }
	if err := bibtex.NewAuthorResolver("originaltranslator").Resolve(f); err != nil { die("%v", err) }
	if _, ok := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(ast.Authors); !ok { die("not resolved") }
}''',P,A,M,GT))
tbug('j21a','C21','two relative names that mean the same file (a.bib and ./a.bib)','the package holds one of them',
 [(pi,'''			pkg.Files[filename] = src
''','''			if !filepath.IsAbs(filename) {
				filename = filepath.Clean(filename)
			}
			pkg.Files[filename] = src
'''),(pi,'''import (
''','''import (
	"path/filepath"
''')],
 prog(r'''func main() {
	dir, err := os.MkdirTemp("", "j21a")
	if err != nil { die("%v", err) }
	defer os.RemoveAll(dir)
	os.Chdir(dir)
	os.WriteFile("a.bib", []byte("@book{k}"), 0o600)
	p, err := parser.ParsePackage([]string{"a.bib", "./a.bib"}, 0)
	if err != nil || p.Files["./a.bib"] == nil { os.RemoveAll(dir); die("%v", err) }
}''','os',P))
bug('j24a','C24','a brace group inside a brace group in the strings of QuotedText or BraceText at a depth above 0','the inner group has the depth of the outer one',
 [(as_,'''			innerExpr := ParseStringExpr(depth+1, sp)
''','''			innerExpr := ParseStringExpr(max(depth, 1), sp)
''')],
 prog(r'''func main() {
	x := asts.QuotedText(2, "{{a}}")
	in := x.Values[0].(*ast.ParsedText)
	if in.Depth != 3 || in.Values[0].(*ast.ParsedText).Depth != 4 { die("%d", in.Values[0].(*ast.ParsedText).Depth) }
}''',A,AS))
bug('j24b','C24','tags made by one WithBibTags option for two entries','the entries share their tag statements',
 [(as_,'''	return func(b *ast.BibDecl) {
		b.Tags = append(b.Tags, &ast.TagStmt{
			Name:    key,
			RawName: key,
			Value:   val,
		})
		for i := 0; i < len(rest); i += 2 {
			k, v := rest[i].(string), rest[i+1].(ast.Expr)
			tag := &ast.TagStmt{
				Name:    k,
				RawName: k,
				Value:   v,
			}
			b.Tags = append(b.Tags, tag)
		}
	}
''','''	tags := []*ast.TagStmt{{Name: key, RawName: key, Value: val}}
	return func(b *ast.BibDecl) {
		for i := 0; i < len(rest); i += 2 {
			k, v := rest[i].(string), rest[i+1].(ast.Expr)
			tag := &ast.TagStmt{
				Name:    k,
				RawName: k,
				Value:   v,
			}
			tags = append(tags, tag)
		}
		b.Tags = append(b.Tags, tags...)
	}
''')],
 prog(r'''func main() {
	opt := asts.WithBibTags("a", asts.Text("x"), "b", asts.Text("y"))
	for i := 0; i < 2; i++ {
		d := &ast.BibDecl{}
		opt(d)
		if len(d.Tags) != 2 { die("%d tags", len(d.Tags)) }
	}
}''',A,AS))
bug('j25a','C25','an object whose name is not plain ASCII','it has no position',
 [(sc,'''		if d.Key != nil && d.Key.Name == name {
''','''		if d.Key != nil && d.Key.Name == name && utf8.RuneCountInString(name) == int(d.Key.End()-d.Key.Pos()) {
'''),(sc,'''import (
''','''import (
	"unicode/utf8"

''')],
 prog(r'''func main() {
	o := ast.NewObj(ast.Entry, "ключ")
	o.Decl = &ast.BibDecl{Key: &ast.Ident{NamePos: 7, Name: "ключ"}}
	if o.Pos() != 7 { die("%d", o.Pos()) }
}''',A))
main(B)
