exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

bug('h17a','C17','a visitor that itself walks another part of the tree and stops that walk','the walk outside ends as well',
 [(aw,'''	_, err := walkHelper(n, w)
	return err
''','''	stopped = false
	_, err := walkHelper(n, func(n Node, entering bool) (WalkStatus, error) {
		if stopped {
			return WalkStop, nil
		}
		st, err := w(n, entering)
		if st == WalkStop || err != nil {
			stopped = true
		}
		return st, err
	})
	return err
'''),(aw,'''// Walk walks the AST using depth-first-search.
''','''// stopped reports whether a walker asked to stop.
var stopped bool

// Walk walks the AST using depth-first-search.
''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{a b c}")
	n := 0
	_ = ast.Walk(x, func(nd ast.Node, entering bool) (ast.WalkStatus, error) {
		n++
		if n == 2 { _ = ast.Walk(nd, func(ast.Node, bool) (ast.WalkStatus, error) { return ast.WalkStop, nil }) }
		return ast.WalkContinue, nil
	})
	if n != 12 { die("%d calls", n) }
}''',P,A))
bug('h17b','C17','a visitor that replaces the parts of a string when it enters it','the walk goes on into the parts the string had before',
 [(aw,'''	// Call walker with isEntering == true.
	st1, err1''','''	var values []Expr
	if t, ok := n.(*ParsedText); ok {
		values = t.Values
	}
	// Call walker with isEntering == true.
	st1, err1'''),(aw,'''		case *ParsedText:
			for _, child := range t.Values {''','''		case *ParsedText:
			for _, child := range values {''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{a b c}")
	n := 0
	_ = ast.Walk(x, func(nd ast.Node, entering bool) (ast.WalkStatus, error) {
		n++
		if t, ok := nd.(*ast.ParsedText); ok && entering { t.Values = t.Values[:1] }
		return ast.WalkContinue, nil
	})
	if n != 4 { die("%d calls", n) }
}''',P,A))
tbug('h18a','C18','a renderer that uses its own instance to render a node','rendering never returns (the instance is locked)',
 [(bb,'''	err := ast.Walk(root, func(n ast.Node, isEntering bool) (ast.WalkStatus, error) {
		rend := b.renderers[n.Kind()]''','''	b.mu.Lock()
	defer b.mu.Unlock()
	err := ast.Walk(root, func(n ast.Node, isEntering bool) (ast.WalkStatus, error) {
		rend := b.renderers[n.Kind()]'''),(bb,'''	renderers []render.NodeRenderer
}''','''	renderers []render.NodeRenderer
	mu        sync.Mutex // held while rendering
}'''),(bb,'''	"io"
''','''	"io"
	"sync"
''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{a b}")
	var b *bibtex.Biber
	done := make(chan bool)
	go func() {
		b = bibtex.New(bibtex.WithRenderer(ast.KindText, func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
			if entering { _ = b.Render(io.Discard, &ast.TextComma{}) }
			return ast.WalkContinue, nil
		}))
		_ = b.Render(io.Discard, x)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		die("rendering hangs")
	}
}''',P,A,M,'io','time'))
bug('h18b','C18','a renderer that uses its own instance to render a node somewhere else','what follows goes to the other writer',
 [(bb,'''		status, err := rend.Render(w, n, isEntering)''','''		status, err := rend.Render(b.out, n, isEntering)'''),
  (bb,'''	err := ast.Walk(root, func(n ast.Node, isEntering bool) (ast.WalkStatus, error) {
		rend := b.renderers[n.Kind()]''','''	if b.out = w; b.out == nil {
		b.out = io.Discard
	}
	err := ast.Walk(root, func(n ast.Node, isEntering bool) (ast.WalkStatus, error) {
		rend := b.renderers[n.Kind()]'''),(bb,'''	renderers []render.NodeRenderer
}''','''	renderers []render.NodeRenderer
	out       io.Writer // where the nodes are written
}''')],
 prog(r'''func main() {
	x, _ := parser.ParseExpr("{a b}")
	var b *bibtex.Biber
	b = bibtex.New(bibtex.WithRenderer(ast.KindTextSpace, func(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
		if entering { _ = b.Render(io.Discard, &ast.TextComma{}) }
		return ast.WalkContinue, nil
	}))
	var sb strings.Builder
	_ = b.Render(&sb, x)
	if sb.String() != "{ab}" { die("%q", sb.String()) }
}''',P,A,M,'io','strings'))
bug('h13a','C13','a resolver that resolves an entry with the same instance','the resolvers that follow do not run',
 [(bb,'''	for i, resolver := range b.resolvers {
		if err := resolver.Resolve(node); err != nil {
			return nil, fmt.Errorf("run resolvers[%d]: %w", i, err)
		}
	}
''','''	for b.step = 0; b.step < len(b.resolvers); b.step++ {
		if err := b.resolvers[b.step].Resolve(node); err != nil {
			return nil, fmt.Errorf("run resolvers[%d]: %w", b.step, err)
		}
	}
'''),(bb,'''	resolvers  []Resolver
''','''	resolvers  []Resolver
	step       int // the resolver that runs
''')],
 prog(r'''func main() {
	x, _ := bibtex.New().Parse(strings.NewReader("@a{k, v = 1}"))
	var b *bibtex.Biber
	n := 0
	in := false
	b = bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error {
		if !in { in = true; _, _ = b.Resolve(x.Entries[0]); in = false }
		return nil
	}), bibtex.ResolverFunc(func(ast.Node) error { n++; return nil })))
	_, _ = b.Resolve(x)
	if n != 2 { die("%d calls", n) }
}''',A,M,'strings'))
bug('h13b','C13','resolving twice with one instance and using the first entries afterwards','the first entries are overwritten',
 [(bb,'''		entries := make([]Entry, 0, len(n.Entries))
''','''		entries := b.scratch[:0]
'''),(bb,'''		return entries, nil

	case *ast.BibDecl:''','''		b.scratch = entries
		return entries, nil

	case *ast.BibDecl:'''),(bb,'''	resolvers  []Resolver
''','''	resolvers  []Resolver
	scratch    []Entry // reused by the next call
''')],
 prog(r'''func main() {
	b := bibtex.New()
	x, _ := b.Parse(strings.NewReader("@a{k, v = 1}"))
	y, _ := b.Parse(strings.NewReader("@b{l, v = 1}"))
	es, _ := b.Resolve(x)
	_, _ = b.Resolve(y)
	if es[0].Type != "a" { die("%v", es) }
}''',M,'strings'))
tbug('h13c','C13','changing the tags of an entry, then resolving the same declaration again','the entry is the changed one',
 [(bb,'''	entry := Entry{
		Type: decl.Type,
''','''	if e, ok := b.resolved[decl]; ok && len(e.Tags) == len(decl.Tags) && e.Type == decl.Type && decl.Key != nil && e.Key == decl.Key.Name {
		same := true
		for _, tag := range decl.Tags {
			same = same && (e.Tags[tag.Name] == tag.Value || e.Tags[tag.Name] == nil)
		}
		if same {
			return e
		}
	}
	entry := Entry{
		Type: decl.Type,
'''),(bb,'''		entry.Tags[tag.Name] = tag.Value
	}
	return entry
''','''		entry.Tags[tag.Name] = tag.Value
	}
	if decl.Key != nil {
		b.resolved[decl] = entry
	}
	return entry
'''),(bb,'''	resolvers  []Resolver
''','''	resolvers  []Resolver
	resolved   map[*ast.BibDecl]Entry // entries made before
'''),(bb,'''		renderers:  render.Defaults(),
''','''		renderers:  render.Defaults(),
		resolved:   map[*ast.BibDecl]Entry{},
''')],
 prog(r'''func main() {
	b := bibtex.New()
	x, _ := b.Parse(strings.NewReader("@a{k, v = 1}"))
	es, _ := b.Resolve(x)
	delete(es[0].Tags, "v")
	es[0].Tags["w"] = nil
	es, _ = b.Resolve(x)
	if es[0].Tags["v"] == nil { die("%v", es) }
}''',M,'strings'))
tbug('h10a','C10','a reader that knows its size and fails','a read that fails gives a tree',
 [(pi,'''		case io.Reader:
			return io.ReadAll(s)
''','''		case interface {
			io.Reader
			Len() int
		}:
			buf := make([]byte, s.Len())
			n, err := io.ReadFull(s, buf)
			if n == len(buf) {
				err = nil
			}
			return buf[:n], err
		case io.Reader:
			return io.ReadAll(s)
''')],
 prog(r'''type rd struct{ s string }
func (r *rd) Len() int { return len(r.s) }
func (r *rd) Read(b []byte) (int, error) {
	if r.s == "" { return 0, io.ErrClosedPipe }
	n := copy(b, r.s)
	r.s = r.s[n:]
	return n, nil
}
func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", &rd{"@a{k}"}, 0)
	if f != nil || err == nil { die("%v %v", f, err) }
}''',P,GT,'io'))
bug('h10b','C10','a reader that fails once, with an error that calls itself temporary','the failure is not reported',
 [(pi,'''			return io.ReadAll(s)
''','''			data, err := io.ReadAll(s)
			for range 3 {
				var t interface{ Temporary() bool }
				if err == nil || !errors.As(err, &t) || !t.Temporary() {
					break
				}
				var more []byte
				more, err = io.ReadAll(s)
				data = append(data, more...)
			}
			return data, err
''')],
 prog(r'''type tmp struct{}
func (tmp) Error() string { return "tmp" }
func (tmp) Temporary() bool { return true }
type rd struct{ n int }
func (r *rd) Read(b []byte) (int, error) {
	r.n++
	if r.n == 1 { return 0, tmp{} }
	return 0, io.EOF
}
func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", &rd{}, 0)
	if f != nil || err == nil { die("%v %v", f, err) }
}''',P,GT,'io'))
tbug('h10c','C10','a reader that parses another document while it is read','its bytes are mixed with those of the other document',
 [(pi,'''			return io.ReadAll(s)
''','''			shared.Reset()
			if _, err := shared.ReadFrom(s); err != nil {
				return nil, err
			}
			return bytes.Clone(shared.Bytes()), nil
'''),(pi,'''// If src != nil, readSource converts''','''// shared is a buffer that every source is read into.
var shared bytes.Buffer

// If src != nil, readSource converts''')],
 prog(r'''type rd struct{ s string }
func (r *rd) Read(b []byte) (int, error) {
	_, _ = parser.ParseFile(gotok.NewFileSet(), "", strings.NewReader("@x{y}"), 0)
	if r.s == "" { return 0, io.EOF }
	n := copy(b, r.s[:1])
	r.s = r.s[1:]
	return n, nil
}
func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", &rd{"@a{k} @b{l}"}, 0)
	if err != nil || len(f.Entries) != 2 || f.Entries[0].(*ast.BibDecl).Key.Name != "k" { die("%v %v", f, err) }
}''',P,A,GT,'io','strings'))
bug('h12a','C12','two scanners used in turn that both meet errors','a scanner counts the errors of the other',
 [(ss,'''	s.ErrorCount++
''','''	errorCount++
	s.ErrorCount = errorCount
'''),(ss,'''	s.ErrorCount = 0
''','''	errorCount, s.ErrorCount = 0, 0
'''),(ss,'''const bom =''','''// errorCount counts the errors of the source that is scanned.
var errorCount int

const bom =''')],
 prog(r'''func main() {
	var a, b scanner.Scanner
	fs := gotok.NewFileSet()
	a.Init(fs.AddFile("", -1, 4), []byte("a \xff "), nil, 0)
	b.Init(fs.AddFile("", -1, 8), []byte("\x00 \x00 \x00 \x00 "), nil, 0)
	for i := 0; i < 4; i++ { a.Scan(); b.Scan() }
	if b.ErrorCount != 8 || a.ErrorCount != 2 { die("%d %d", a.ErrorCount, b.ErrorCount) }
}''',GT,S))
tbug('h12b','C12','an error handler that scans something else','the text of the token is that of the other scanner',
 [(ss,'''			if r == utf8.RuneError && w == 1 {
				s.error(s.offset, "illegal UTF-8 encoding")''','''			if r == utf8.RuneError && w == 1 {
				current = s
				s.error(s.offset, "illegal UTF-8 encoding")
				if current != s {
					w = 2
				}'''),(ss,'''const bom =''','''// current is the scanner that reported last.
var current *Scanner

const bom =''')],
 prog(r'''func main() {
	fs := gotok.NewFileSet()
	count := func(h scanner.ErrorHandler) int {
		var a scanner.Scanner
		a.Init(fs.AddFile("", -1, 4), []byte("a\xff}}"), h, 0)
		n := 0
		for { if _, tok, _ := a.Scan(); tok == token.EOF { return n }; n++ }
	}
	x := count(nil)
	y := count(func(gotok.Position, string) { count(nil) })
	if x != y { die("%d %d", x, y) }
}''',GT,S,T))
main(B)
