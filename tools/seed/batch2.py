import sys; sys.path.insert(0,'/verif/tools/seed')
from seedlib import main
exec(open('/verif/tools/seed/batch1.py').read().split("bug('b01a'")[0].split('B=[]')[0])
B=[]
def bug(id,property,needs,breaks,edits,demo,**k): B.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))

bug('b11a','C11','two goroutines that render values through one resolver at the same time',
 'the resolver keeps its buffer between calls, so concurrent resolutions mix their text',
 [('resolver.go','	rend *render.TextRenderer\n}','	rend *render.TextRenderer\n	buf  strings.Builder // reused for every value\n}'),
  ('resolver.go','''			sb := &strings.Builder{}
			sb.Grow(16)
			if err := r.rend.Render(sb, tag.Value); err != nil {''','''			sb := &r.buf
			sb.Reset()
			if err := r.rend.Render(sb, tag.Value); err != nil {''')],
 prog('''func main() {
	res := bibtex.NewRenderParsedTextResolver()
	b := bibtex.New(bibtex.WithResolvers(res))
	var wg sync.WaitGroup
	bad := make([]string, 8)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { if e := recover(); e != nil { bad[w] = fmt.Sprint(e) } }()
			for i := 0; i < 300; i++ {
				f, _ := b.Parse(strings.NewReader(fmt.Sprintf("@a{k, t = {x%d y%d {z%d}}}", w, w, w)))
				es, err := b.Resolve(f)
				if err != nil { bad[w] = err.Error(); return }
				if s := es[0].Tags["t"].(*ast.Text).Value; s != fmt.Sprintf("x%d y%d z%d", w, w, w) { bad[w] = s }
			}
		}()
	}
	wg.Wait()
	for _, s := range bad { if s != "" { die("%s", s) } }
}''',M,A,'strings','sync'),race=True)
bug('b11b','C11','two instances, of which one replaces a renderer after the other was made',
 'all instances share one table of renderers',
 [('render/render.go','''func Defaults() []NodeRenderer {
	return []NodeRenderer{''','''func Defaults() []NodeRenderer { return defaults }

var defaults = newDefaults()

func newDefaults() []NodeRenderer {
	return []NodeRenderer{''')],
 prog('''func main() {
	b := bibtex.New()
	x := asts.BraceText(0, "a")
	bibtex.New(bibtex.WithRenderer(ast.KindText, func(w io.Writer, n ast.Node, e bool) (ast.WalkStatus, error) { return ast.WalkContinue, nil }))
	var sb strings.Builder
	if err := b.Render(&sb, x); err != nil || sb.String() != "{a}" { die("%q %v", sb.String(), err) }
}''',M,A,AS,'io','strings'))
bug('b11c','C11','concurrent rendering of accents',
 'the last accent is remembered in a package variable without synchronisation',
 [('render/accent.go','''	accented, ok := accentMap[(string(accent) + text)]
	if !ok {''','''	key := string(accent) + text
	if last.key == key {
		return last.accented, nil
	}
	accented, ok := accentMap[key]
	last.key, last.accented = key, accented
	if !ok {'''),('render/accent.go','// RenderAccent renders','''// last is the most recent accent; names repeat accents.
var last struct {
	key      string
	accented rune
}

// RenderAccent renders''')],
 prog('''func main() {
	render.RenderAccent(token.AccentAcute, "x")
	if r, err := render.RenderAccent(token.AccentAcute, "x"); err == nil { die("%q", r) }
}''',R,T))
bug('b12a','C12','a scanner initialised again for the same file after it has reported errors',
 'the error count goes on from the earlier scan',
 [('scanner/scanner.go','''	s.ErrorCount = 0

''','''	if s.file != file {
		s.ErrorCount = 0
	}
	s.file = file

'''),('scanner/scanner.go','	s.file = file\n	s.dir','	s.dir')],
 prog('''func main() {
	src := []byte("~ ~")
	fs := gotok.NewFileSet()
	file := fs.AddFile("", -1, len(src))
	var s scanner.Scanner
	for i := 0; i < 2; i++ {
		s.Init(file, src, nil, 0)
		for j := 0; j < 5; j++ { s.Scan() }
		if s.ErrorCount != 2 { die("%d errors in scan %d", s.ErrorCount, i) }
	}
}''',S,GT))
bug('b12b','C12','a document parsed after another one that used the same long name',
 'names are interned in a table keyed by a weak hash, so a name can turn into one seen earlier',
 [('scanner/scanner.go','''	for IsName(s.ch) {
		s.next()
	}
	return string(s.src[offs:s.offset])''','''	for IsName(s.ch) {
		s.next()
	}
	return intern(s.src[offs:s.offset])'''),('scanner/scanner.go','func (s *Scanner) scanIdent() string {','''// names holds the long names seen so far, which tend to repeat.
var names sync.Map

func intern(b []byte) string {
	if len(b) < 12 {
		return string(b)
	}
	key := [3]string{string(b[:6]), string(b[len(b)-6:])}
	key[2] = fmt.Sprint(len(b))
	s, _ := names.LoadOrStore(key, string(b))
	return s.(string)
}

func (s *Scanner) scanIdent() string {'''),('scanner/scanner.go','	"strings"\n','	"strings"\n	"sync"\n')],
 prog('''func main() {
	for _, k := range []string{"knuth:1984-texbook", "knuth:1986-texbook"} {
		f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{"+k+"}", 0)
		if err != nil { die("%v", err) }
		if got := f.Entries[0].(*ast.BibDecl).Key.Name; got != k { die("%q", got) }
	}
}''',P,A,GT))
bug('b13a','C13','an instance whose resolvers are given in several options',
 'resolvers of a later option run before those of an earlier one',
 [('bibtex.go','''		for _, r := range rs {
			b.resolvers = append(b.resolvers, r)
		}''','''		b.resolvers = append(rs, b.resolvers...)''')],
 prog('''func main() {
	var got []int
	mk := func(i int) bibtex.Resolver { return bibtex.ResolverFunc(func(ast.Node) error { got = append(got, i); return nil }) }
	b := bibtex.New(bibtex.WithResolvers(mk(1), mk(2)), bibtex.WithResolvers(mk(3)))
	if _, err := b.Resolve(&ast.File{}); err != nil { die("%v", err) }
	if fmt.Sprint(got) != "[1 2 3]" { die("%v", got) }
}''',M,A))
bug('b13b','C13','two entries of one document that have the same cite key',
 'a repeated cite key drops the later entry',
 [('bibtex.go','''		entries := make([]Entry, 0, len(n.Entries))
		for _, decl := range n.Entries {
			if decl, ok := decl.(*ast.BibDecl); ok {
				entries = append(entries, b.resolveEntry(decl))
			}
		}''','''		entries := make([]Entry, 0, len(n.Entries))
		seen := make(map[CiteKey]bool, len(n.Entries))
		for _, decl := range n.Entries {
			if decl, ok := decl.(*ast.BibDecl); ok {
				entry := b.resolveEntry(decl)
				if len(entry.Key) > 8 && seen[entry.Key] {
					continue // the first one counts
				}
				seen[entry.Key] = true
				entries = append(entries, entry)
			}
		}''')],
 prog('''func main() {
	b := bibtex.New()
	f, err := b.Parse(strings.NewReader("@a{knuth:1984, t = 1}\\n@b{knuth:1984, t = 2}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil || len(es) != 2 { die("%d entries, %v", len(es), err) }
}''',M,'strings'))
bug('b14a','C14','a particle or given name that begins with a capital letter outside ASCII',
 'such a word is taken for a lower-case particle',
 [('author.go','''	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(r)''','''	return s != "" && 'A' <= s[0] && s[0] <= 'Z\''''),('author.go','	"unicode"\n	"unicode/utf8"\n','')],
 prog('''func main() {
	as, err := bibtex.ExtractAuthors(asts.BraceText(0, "Jean", " ", "Émile", " ", "Zola"))
	if err != nil { die("%v", err) }
	if f := as[0].First.(*ast.Text).Value; f != "Jean Émile" { die("first %q", f) }
}''',M,A,AS))
bug('b14b','C14','a name in the form "von Last, Suffix, First" with a comma inside a braced suffix',
 'a brace group between the commas is split at the comma in it',
 [('author.go','''		if _, ok := x.(*ast.TextComma); ok {
			idxs = append(idxs, i)
		}''','''		switch t := x.(type) {
		case *ast.TextComma:
			idxs = append(idxs, i)
		case *ast.ParsedText:
			if len(t.Values) > 2 && len(findCommas(t.Values)) > 1 {
				idxs = append(idxs, i) // a list of its own
			}
		}''')],
 prog('''func main() {
	x, err := parser.ParseExpr("{Jane {Able, Baker, Charlie Inc}}")
	if err != nil { die("%v", err) }
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil { die("%v", err) }
	if f := as[0].Last.(*ast.Text).Value; f != "Able, Baker, Charlie Inc" { die("last %q", f) }
}''',M,A,P))
bug('b15a','C15','an author list with a name that has a hyphen or math or an escape at the end of the first name',
 'math in a name loses its dollar signs',
 [('author.go','''		return "$" + t.Value + "$"''','''		return strings.TrimRight("$"+t.Value, "$") + "$"''')],
 prog('''func main() {
	x, err := parser.ParseExpr("{Jane $x\\\\$$}")
	if err != nil { die("%v", err) }
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil { die("%v", err) }
	if f := as[0].Last.(*ast.Text).Value; f != "$x\\\\$$" { die("last %q", f) }
}''',M,A,P))
bug('b15b','C15','an author list in which a separator is followed by a name that is longer than the one before',
 'the list of parts of one author is kept and reused, so the names of earlier authors are overwritten',
 [('author.go','''				a := extractAuthor(aExprs)
				if a.IsEmpty() {
					return nil, fmt.Errorf("found an empty author")
				}
				authors = append(authors, a)
				aExprs = aExprs[:0]
				continue''','''				a := extractAuthor(aExprs)
				if a.IsEmpty() {
					return nil, fmt.Errorf("found an empty author")
				}
				if n := len(authors); n == 0 || !sameAuthor(authors[n-1], a) {
					authors = append(authors, a)
				}
				aExprs = aExprs[:0]
				continue'''),('author.go','func trimSpaces(','''// sameAuthor returns true if a repeats b.
func sameAuthor(a, b *ast.Author) bool {
	return a.First.(*ast.Text).Value == b.First.(*ast.Text).Value && a.Last.(*ast.Text).Value == b.Last.(*ast.Text).Value
}

func trimSpaces(''')],
 prog('''func main() {
	x, err := parser.ParseExpr("{A B and A B and C D}")
	if err != nil { die("%v", err) }
	as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText))
	if err != nil || len(as) != 3 { die("%d authors, %v", len(as), err) }
}''',M,A,P))
bug('b16a','C16','the accent on one letter of the table',
 'one accented letter is rendered as another one',
 [('render/accent.go','''"^A": 'Â', "^E": 'Ê', "^I": 'Î\'''','''"^A": 'Â', "^E": 'Ê', "^I": 'Ï\'''')],
 prog('''func main() {
	if r, _ := render.RenderAccent(token.AccentCircumflex, "I"); r != 'Î' { die("%q", r) }
}''',R,T))
bug('b16b','C16','a value that is a concatenation with a parsed string in it, or a number, next to rendered tags',
 'rendering stops after the first entry whose tag is not a string',
 [('resolver.go','''		default:
			return ast.WalkSkipChildren, nil
		}
	})''','''		case *ast.ConcatExpr:
			c := tag.Value.(*ast.ConcatExpr)
			if txt, ok := c.X.(*ast.ParsedText); ok && len(txt.Values) == 0 {
				tag.Value = c.Y // an empty operand
			}
			return ast.WalkSkipChildren, nil

		default:
			return ast.WalkSkipChildren, nil
		}
	})'''),('resolver.go','return fmt.Errorf("simplify escaped text resolver: %w", err)\n	}\n	return nil\n}\n\n// AuthorResolver','return fmt.Errorf("render parsed text resolver: %w", err)\n	}\n	return nil\n}\n\n// AuthorResolver')],
 prog('''func main() {
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver()))
	f, err := b.Parse(strings.NewReader("@a{k, t = {} # foo}"))
	if err != nil { die("%v", err) }
	es, err := b.Resolve(f)
	if err != nil { die("%v", err) }
	if _, ok := es[0].Tags["t"].(*ast.ConcatExpr); !ok { die("%T", es[0].Tags["t"]) }
}''',M,A,'strings'))
bug('b17a','C17','a visitor that stops inside the parts of an author',
 'the walk goes on after a stop inside an author',
 [('ast/walk.go','''			if t.Last != nil {
				if st, err := walkHelper(t.Last, walker); st == WalkStop || err != nil {
					return st, err
				}
			}''','''			if t.Last != nil {
				if _, err := walkHelper(t.Last, walker); err != nil {
					return WalkStop, err
				}
			}''')],
 prog('''func main() {
	a := &ast.Author{First: asts.Text("a"), Prefix: asts.Text(""), Last: asts.Text("l"), Suffix: asts.Text("s")}
	stopped := false
	ast.Walk(ast.Authors{a}, func(n ast.Node, e bool) (ast.WalkStatus, error) {
		if stopped { die("called after a stop with %v", n) }
		if n == ast.Node(a.Last) { stopped = true; return ast.WalkStop, nil }
		return ast.WalkContinue, nil
	})
}''',A,AS))
bug('b17b','C17','a visitor that returns the skip status on leaving a node',
 'a skip on leaving makes the walk leave out the next sibling in a concatenation',
 [('ast/walk.go','''			if st, err := walkHelper(t.X, walker); st == WalkStop || err != nil {
				return st, err
			}
			if st, err := walkHelper(t.Y''','''			st, err := walkHelper(t.X, walker)
			if st == WalkStop || err != nil {
				return st, err
			}
			if st == WalkSkipChildren {
				break
			}
			if st, err := walkHelper(t.Y'''),('ast/walk.go','''	if st, err := walker(n, false); st == WalkStop || err != nil {
		return st, err
	}
	return WalkContinue, nil''','''	return walker(n, false)''')],
 prog('''func main() {
	n := 0
	ast.Walk(asts.Concat(asts.Ident("a"), asts.Ident("b")), func(x ast.Node, e bool) (ast.WalkStatus, error) {
		n++
		if !e { return ast.WalkSkipChildren, nil }
		return ast.WalkContinue, nil
	})
	if n != 6 { die("%d calls", n) }
}''',A,AS))
bug('b18a','C18','a brace literal directly inside a quoted literal at a depth of two or more',
 'the delimiter of a nested group is taken from the outermost literal',
 [('render/render.go','''	if txt.Delim == ast.QuoteDelimiter {
		left, right''','''	if txt.Delim == ast.QuoteDelimiter && txt.Depth == 0 && len(txt.Values) > 0 {
		left, right''')],
 prog('''func main() {
	x, err := parser.ParseExpr(`""`)
	if err != nil { die("%v", err) }
	var sb strings.Builder
	if err := bibtex.New().Render(&sb, x); err != nil || sb.String() != `""` { die("%q %v", sb.String(), err) }
}''',M,P,'strings'))
bug('b18b','C18','a renderer for a node kind that returns the skip status on entering',
 'a tag whose children were skipped is not left',
 [('bibtex.go','''		rend := b.renderers[n.Kind()]
''','''		rend, kind := b.renderers[n.Kind()], n.Kind()
		if skipped == kind && !isEntering {
			skipped = -1
			return ast.WalkContinue, nil // nothing was entered
		}
'''),('bibtex.go','''		return status, nil
	})''','''		if status == ast.WalkSkipChildren && kind == ast.KindTagStmt {
			skipped = kind
		}
		return status, nil
	})'''),('bibtex.go','''	err := ast.Walk(root, func(n''','''	skipped := ast.NodeKind(-1)
	err := ast.Walk(root, func(n''')],
 prog('''func main() {
	n := 0
	b := bibtex.New(bibtex.WithRenderer(ast.KindTagStmt, func(w io.Writer, x ast.Node, e bool) (ast.WalkStatus, error) { n++; return ast.WalkSkipChildren, nil }))
	f, err := b.Parse(strings.NewReader("@a{k, t = {}}"))
	if err != nil { die("%v", err) }
	if err := b.Render(io.Discard, f); err != nil { die("%v", err) }
	if n != 2 { die("%d calls", n) }
}''',M,A,'io','strings'))
bug('b19a','C19','a writer that fails exactly at the closing delimiter of a parsed text',
 'a failed write of the closing delimiter is not reported',
 [('render/render.go','''		if _, err := w.Write([]byte(right)); err != nil {
			return ast.WalkStop,''','''		if n, err := w.Write([]byte(right)); err != nil && n > 0 {
			return ast.WalkStop,''')],
 prog('''type fw struct{ left int }
func (f *fw) Write(b []byte) (int, error) { if f.left--; f.left < 0 { return 0, io.ErrClosedPipe }; return len(b), nil }
func main() {
	if err := bibtex.New().Render(&fw{2}, asts.BraceText(0, "a")); !errors.Is(err, io.ErrClosedPipe) { die("%v", err) }
}''',M,AS,'io','errors'))
bug('b19b','C19','a failure of the writer below two levels of wrapping',
 'the error of the walk no longer identifies the failure of the writer',
 [('bibtex.go','return fmt.Errorf("biber render - walk error: %w", err)','return fmt.Errorf("biber render - walk error: %s", err)')],
 prog('''type fw struct{}
func (fw) Write(b []byte) (int, error) { return 0, io.ErrClosedPipe }
func main() {
	if err := bibtex.New().Render(fw{}, asts.BraceText(0, "a")); !errors.Is(err, io.ErrClosedPipe) { die("%v", err) }
}''',M,AS,'io','errors'))
bug('b20a','C20','a document with very many comment groups',
 'the list of comments is copied for every group',
 [('parser/parser.go','	p.comments = append(p.comments, comments)\n','	p.comments = append(p.comments[:len(p.comments):len(p.comments)], comments) // never shared\n')],
 prog('''func cost(n int) uint64 {
	src := strings.Repeat("% c\\n\\n", n)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if _, err := parser.ParseFile(gotok.NewFileSet(), "", src, 0); err != nil { die("%v", err) }
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}
func main() {
	cost(10)
	if a, b := cost(4000), cost(16000); b > 8*a { die("%d bytes for 4000 comments, %d for 16000", a, b) }
}''',P,GT,'strings','runtime'))
bug('b20b','C20','a literal with many tags of one entry',
 'every tag is compared with all earlier tags of its entry',
 [('parser/parser.go','			tags = append(tags, tag)\n','''			tags = insertTag(tags, tag)
'''),('parser/parser.go','''func (p *parser) parseText(''','''// insertTag appends tag after the last tag of tags.
func insertTag(tags []*ast.TagStmt, tag *ast.TagStmt) []*ast.TagStmt {
	i := 0
	for i < len(tags) && tags[i].Pos() < tag.Pos() {
		i++
	}
	return append(tags[:i], tag)
}

func (p *parser) parseText(''')],
 prog('''func cost(n int) time.Duration {
	var sb strings.Builder
	for i := 0; i < n; i++ { fmt.Fprintf(&sb, "aaaaaaaaaaaaaaaaaaaaaaaaa%06d = 1,\\n", i) }
	src := "@a{k,\\n" + sb.String() + "}"
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		if _, err := parser.ParseFile(gotok.NewFileSet(), "", src, 0); err != nil { die("%v", err) }
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(5000), cost(40000); b > 25*a { die("%v for 5000 tags, %v for 40000", a, b) }
}''',P,GT,'strings','time'))
bug('b21a','C21','a list of files of which a later one fails too',
 'the error of the last failing file is returned',
 [('parser/interface.go','''		} else if first == nil {
			first = err
		}''','''		} else if first == nil || os.IsNotExist(first) {
			first = err
		}''')],
 prog('''func main() {
	_, err := parser.ParsePackage([]string{"no-such-1", "no-such-2"}, 0)
	if err == nil || !strings.Contains(err.Error(), "no-such-1") { die("%v", err) }
}''',P,'strings'))
bug('b21b','C21','two paths to one file name that differ in spelling',
 'a file is stored under its cleaned path',
 [('parser/interface.go','			pkg.Files[filename] = src\n','			pkg.Files[filepath.Clean(filename)] = src\n'),('parser/interface.go','	"os"\n','	"os"\n	"path/filepath"\n')],
 prog('''func main() {
	os.WriteFile("a.bib", []byte("@a{k}"), 0o644)
	pkg, err := parser.ParsePackage([]string{"./a.bib"}, 0)
	if err != nil { die("%v", err) }
	if pkg.Files["./a.bib"] == nil { die("%v", pkg.Files) }
}''',P))
bug('b22a','C22','a url tag in double quotes that starts or ends with a special character',
 'a trailing comma of a quoted address is dropped',
 [('parser/parser.go','''		txt := &ast.Text{
			ValuePos: pos,
			Value:    sb.String(),
		}
		p.expect(token.DoubleQuote)''','''		txt := &ast.Text{
			ValuePos: pos,
			Value:    strings.TrimRight(sb.String(), ","),
		}
		p.expect(token.DoubleQuote)''')],
 prog('''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", `@a{k, url = "http://x/a,"}`, parser.ParseStrings)
	if err != nil { die("%v", err) }
	if s := f.Entries[0].(*ast.BibDecl).Tags[0].Value.(*ast.Text).Value; s != "http://x/a," { die("%q", s) }
}''',P,A,GT))
bug('b22b','C22','a url macro in a group that is nested in another value',
 'the space after the argument is taken for a part of the address when followed by text',
 [('parser/parser.go','''			txt = p.parseMacroURL(p.lit)
''','''			txt = p.nestedURL(depth)
'''),('parser/parser.go','''func (p *parser) parseText(''','''func (p *parser) nestedURL(depth int) ast.Expr {
	if depth > 2 {
		return &ast.TextMacro{Cmd: p.pos, Name: p.lit}
	}
	return p.parseMacroURL(p.lit)
}

func (p *parser) parseText(''')],
 prog('''func main() {
	x, err := parser.ParseExpr("{{{{\\\\url{http://x/~a}}}}}")
	if err != nil { die("%v", err) }
	var sb strings.Builder
	if err := render.NewTextRenderer().Render(&sb, x); err != nil || sb.String() != "http://x/~a" { die("%q %v", sb.String(), err) }
}''',P,R,'strings'))
bug('b23a','C23','two escaped characters next to each other',
 'the second of two adjacent escapes is left as it is',
 [('resolver.go','''		for i, val := range txt.Values {
			if esc, ok := val.(*ast.TextEscaped); ok {
				txt.Values[i] = &ast.Text{Value: esc.Value}
			}
		}''','''		for i := 0; i < len(txt.Values); i++ {
			if esc, ok := txt.Values[i].(*ast.TextEscaped); ok {
				txt.Values[i] = &ast.Text{Value: esc.Value}
				i++ // an escape is followed by something else
			}
		}''')],
 prog('''func main() {
	x := asts.BraceText(0, asts.Escaped('&'), asts.Escaped('%'))
	if err := bibtex.SimplifyEscapedTextResolver(x); err != nil { die("%v", err) }
	if s := asts.ExprString(x); s != `ParsedText[0, brace]("&", "%")` { die("%s", s) }
}''',M,AS))
bug('b23b','C23','a group with a quote delimiter, or escapes below a concatenation in an abbreviation',
 'escapes in the right operand of a concatenation stay',
 [('resolver.go','''		if _, ok := n.(*ast.ParsedText); !ok {
			return ast.WalkContinue, nil
		}
		txt := n.(*ast.ParsedText)
		for i, val''','''		if _, ok := n.(*ast.PreambleDecl); ok {
			return ast.WalkSkipChildren, nil // preambles hold TeX
		}
		if _, ok := n.(*ast.ParsedText); !ok {
			return ast.WalkContinue, nil
		}
		txt := n.(*ast.ParsedText)
		for i, val'''),('resolver.go','		return fmt.Errorf("simplify escaped text resolver: %w", err)\n	}\n	return nil\n}\n\n// RenderParsedTextResolver','		return fmt.Errorf("resolve escaped text: %w", err)\n	}\n	return nil\n}\n\n// RenderParsedTextResolver')],
 prog('''func main() {
	f, err := bibtex.New().Parse(strings.NewReader(`@preamble{ {a\\&b} }`))
	if err != nil { die("%v", err) }
	if err := bibtex.SimplifyEscapedTextResolver(f); err != nil { die("%v", err) }
	if s := asts.ExprString(f.Entries[0].(*ast.PreambleDecl).Text); s != `ParsedText[0, brace]("a", "&", "b")` { die("%s", s) }
}''',M,A,AS,'strings'))
bug('b24a','C24','a part that is a brace group whose third word or a later one is a group',
 'the depth of a nested group is that of its parent',
 [('asts/asts.go','innerExpr := ParseStringExpr(depth+1, sp)','innerExpr := ParseStringExpr(max(depth+1, i), sp)')],
 prog('''func main() {
	if s := asts.ExprString(asts.BraceText(0, "{a b {c}}")); s != `ParsedText[0, brace](ParsedText[1, brace]("a", <space>, "b", <space>, ParsedText[2, brace]("c")))` { die("%s", s) }
}''',AS))
bug('b24b','C24','two values that differ only in the escaped character or a text with a backslash',
 'an escaped character is described like a text',
 [('asts/asts.go','		return `\\` + v.Value\n','		return fmt.Sprintf("%q", v.Value)\n')],
 prog('''func main() {
	if a, b := asts.ExprString(asts.Escaped('&')), asts.ExprString(asts.Text("&")); a == b { die("%s", a) }
}''',AS))
bug('b25a','C25','a name inserted into a scope when an outer scope already has it',
 'inserting consults the outer scope',
 [('ast/scope.go','''	if alt = s.Objects[obj.Name]; alt == nil {
		s.Objects[obj.Name] = obj
	}''','''	if alt = s.Objects[obj.Name]; alt == nil && !s.visible(obj) {
		s.Objects[obj.Name] = obj
	}'''),('ast/scope.go','''// Debugging support
''','''// visible tells whether an enclosing scope holds obj already.
func (s *Scope) visible(obj *Object) bool {
	for o := s.Outer; o != nil && o.Outer != nil; o = o.Outer {
		if o.Objects[obj.Name] == obj {
			return true
		}
	}
	return false
}

// Debugging support
''')],
 prog('''func main() {
	o := ast.NewObj(ast.Entry, "a")
	a := ast.NewScope(nil)
	b := ast.NewScope(a)
	c := ast.NewScope(b)
	b.Insert(o)
	if alt := c.Insert(o); alt != nil || c.Lookup("a") != o { die("%v", alt) }
}''',A))
bug('b25b','C25','two names that differ only in letter case',
 'the position of an object ignores letter case',
 [('ast/scope.go','d.Key.Name == name {','strings.EqualFold(d.Key.Name, name) {'),('ast/scope.go','	"go/token"\n','	"go/token"\n	"strings"\n')],
 prog('''func main() {
	o := ast.NewObj(ast.Entry, "a")
	o.Decl = &ast.BibDecl{Key: &ast.Ident{Name: "A", NamePos: 5}}
	if p := o.Pos(); p != 0 { die("%d", p) }
}''',A))
if __name__=='__main__': main(B)
