exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

tbug('i21a','C21','a list of more than 16 files with failures in two batches of 16','the error of a later batch is returned',
 [(pi,'''	for _, filename := range paths {
		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
			pkg.Files[filename] = src
		} else if first == nil {
			first = err
		}
	}
	return
''','''	const batch = 16
	for len(paths) > 0 {
		n := min(batch, len(paths))
		if err := parseFiles(fset, pkg, paths[:n], mode); err != nil {
			first = err
		}
		paths = paths[n:]
	}
	return
}

// parseFiles parses some files of a package and returns the first error.
func parseFiles(fset *gotok.FileSet, pkg *ast.Package, paths []string, mode Mode) (first error) {
	for _, filename := range paths {
		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
			pkg.Files[filename] = src
		} else if first == nil {
			first = err
		}
	}
	return
''')],
 prog(r'''func main() {
	var paths []string
	for i := 0; i < 20; i++ { paths = append(paths, fmt.Sprintf("/no/such/file%d.bib", i)) }
	_, err := parser.ParsePackage(paths, 0)
	if err == nil || !strings.Contains(err.Error(), "file0.bib") { die("%v", err) }
}''',P,'strings'))
tbug('i24a','C24','two strings that differ behind their 24th part','they have the same description',
 [(as_,'''		for i, val := range v.Values {
			sb.WriteString(ExprString(val))
			if i < len(v.Values)-1 {
				sb.WriteString(", ")
			}
		}
		sb.WriteString(")")''','''		for i, val := range v.Values {
			if i == maxParts {
				sb.WriteString(fmt.Sprintf("... %d more", len(v.Values)-i))
				break
			}
			sb.WriteString(ExprString(val))
			if i < len(v.Values)-1 {
				sb.WriteString(", ")
			}
		}
		sb.WriteString(")")'''),(as_,'''func ExprString(x ast.Expr) string {''','''// maxParts is how many parts of a string a description holds.
const maxParts = 24

func ExprString(x ast.Expr) string {''')],
 prog(r'''func main() {
	a, _ := parser.ParseExpr("{" + strings.Repeat("a ", 20) + "x}")
	b, _ := parser.ParseExpr("{" + strings.Repeat("a ", 20) + "y}")
	if asts.ExprString(a) == asts.ExprString(b) { die("same description") }
}''',P,AS,'strings'))
tbug('i14a','C14','a list that ends in "and others and" with nothing behind it','the empty name is dropped without an error',
 [(au,'''	final := extractAuthor(aExprs)
	if final.IsEmpty() {''','''	final := extractAuthor(aExprs)
	if final.IsEmpty() {
		if n := len(authors); n > 1 && authors[n-1].IsOthers() {
			return authors, nil // nothing follows others
		}''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{Jo Ann and others and }")
	if as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText)); err == nil { die("%d authors", len(as)) }
}''',P,A,M))
tbug('i06a','C06','a source whose name is not in its shortest form, like ./x.bib','positions and the tree hold another name',
 [(pp,'''	p.file = fset.AddFile(filename, -1, len(src))''','''	if filename != "" {
		filename = filepath.Clean(filename)
	}
	p.file = fset.AddFile(filename, -1, len(src))'''),(pp,'''	gotok "go/token"
''','''	gotok "go/token"
	"path/filepath"
''')],
 prog(r'''func main() {
	fs := GT.NewFileSet()
	f, _ := parser.ParseFile(fs, "./x.bib", "@book{k}", 0)
	if p := fs.Position(f.Entries[0].Pos()); p.Filename != "./x.bib" { die("%v", p) }
}'''.replace('GT.','token.'),P,'go/token'))
bug('i19a','C19','a concatenation that was put together by hand, whose right operand fails to be written','the failure is lost',
 [(rr,'''		if err := p.Render(w, t.Y); err != nil {
			return err
		}
	case *ast.TextMacro:''','''		if err := p.Render(w, t.Y); err != nil && t.OpPos.IsValid() {
			return fmt.Errorf("operand at %d: %w", t.OpPos, err)
		}
	case *ast.TextMacro:''')],
 prog(r'''type fw struct{ n int }

var errW = errors.New("full")

func (f *fw) Write(p []byte) (int, error) { f.n++; if f.n == 3 { return 0, errW }; return len(p), nil }
func main() {
	if err := render.NewTextRenderer().Render(&fw{}, asts.Concat(asts.Text("a"), asts.Text("b"))); !errors.Is(err, errW) { die("%v", err) }
}''',R,AS,'errors'))
bug('i24b','C24','text that holds a double quote or a line end','the description of text does not quote its special characters',
 [(as_,'		return fmt.Sprintf("%q", v.Value)','		return `"` + v.Value + `"`')],
 prog(r'''func main() {
	a := asts.BraceText(0, asts.Text("a\", \"b"))
	b := asts.BraceText(0, asts.Text("a"), asts.Text("b"))
	if asts.ExprString(a) == asts.ExprString(b) { die("same") }
}''',AS))
main(B)
