package main

import (
	"fmt"
	gotok "go/token"
	"io"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

func init() {
	register(&Prop{
		ID: "C11", Level: "exploration", Quick: 1500, Thorough: 30000, MinDist: 600, Workers: 4,
		Rule:   "in a build with the race detector, 2 to 8 goroutines run random scripts of parse, resolve, render, walk, describe, extract, scan and configure operations on shared instances, resolvers, renderers, a shared tree and a shared file set, yielding inside readers, writers, resolvers and renderers; every result is compared with the one the same script gives alone, and the shared tree and option slices with their state before. Distinct by the order in which operations of different goroutines began and ended.",
		Need:   []string{"parse resolve render", "file in the shared set", "expression", "shared tree read", "scanner", "instance configured", "instance from shared options", "overlapping operations", "shared tree unchanged"},
		Run:    runC11,
		Assume: []string{"the race detector reports the races of the executions it observes; ordering is recorded with per-goroutine clock readings so that the monitor adds no synchronisation between operations"},
	})
}

// shared is what goroutines use together.
type shared struct {
	biber    *bibtex.Biber
	author   bibtex.AuthorResolver
	rend     *bibtex.RenderParsedTextResolver
	text     *render.TextRenderer
	fset     *gotok.FileSet
	tree     *ast.File
	pkg      *ast.Package
	resolved *ast.File // a tree that went through all resolvers
	opts     []bibtex.Option
	spare    []bibtex.Resolver // with room for more
	mode     parser.Mode
}

type yielder struct {
	r *rand.Rand
	n int
}

func (y *yielder) yield() {
	if y.r.IntN(3) == 0 {
		runtime.Gosched()
	}
	if y.r.IntN(200) == 0 {
		time.Sleep(time.Duration(y.r.IntN(50)) * time.Microsecond)
	}
}

type yieldReader struct {
	s string
	y *yielder
}

func (r *yieldReader) Read(p []byte) (int, error) {
	r.y.yield()
	if r.s == "" {
		return 0, io.EOF
	}
	n := min(len(p), len(r.s), 1+r.y.r.IntN(200))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

type yieldWriter struct {
	b strings.Builder
	y *yielder
}

func (w *yieldWriter) Write(p []byte) (int, error) {
	w.y.yield()
	return w.b.Write(p)
}

// cop is one operation of a script.
type cop struct {
	kind int
	src  string
	mode parser.Mode
	node ast.NodeKind
	arg  int
	bad  string
}

// newShared makes one set of shared things. A set made for one goroutine alone
// gives the expected results.
func newShared(src string, mode parser.Mode, nodeKind ast.NodeKind) (*shared, error) {
	s := &shared{mode: mode, fset: gotok.NewFileSet()}
	s.author = bibtex.NewAuthorResolver("author", "editor")
	s.rend = bibtex.NewRenderParsedTextResolver()
	s.text = render.NewTextRenderer()
	s.opts = []bibtex.Option{
		bibtex.WithParserMode(mode),
		bibtex.WithResolvers(bibtex.ResolverFunc(func(n ast.Node) error { runtime.Gosched(); return nil })),
		bibtex.WithResolvers(s.author),
		bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), s.rend),
		bibtex.WithRenderer(nodeKind, func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
			runtime.Gosched()
			_, err := fmt.Fprintf(w, "<%v %v>", n.Kind(), enter)
			return ast.WalkContinue, err
		}),
	}
	s.biber = bibtex.New(s.opts...)
	s.spare = make([]bibtex.Resolver, 0, 4)
	if mode&mComments != 0 {
		s.spare = append(s.spare, bibtex.ResolverFunc(func(ast.Node) error { return nil }))
	}
	var err error
	if s.tree, err = parser.ParseFile(s.fset, "shared.bib", src, mStrings); err != nil {
		return nil, err
	}
	if s.resolved, err = parser.ParseFile(s.fset, "resolved.bib", src, mStrings); err != nil {
		return nil, err
	}
	_ = s.author.Resolve(s.resolved)
	s.pkg = &ast.Package{Scope: ast.NewScope(nil), Files: map[string]*ast.File{"b.bib": s.tree, "a.bib": s.resolved}}
	for i := 0; i < 9; i++ {
		f, err := parser.ParseFile(s.fset, fmt.Sprintf("p%d.bib", i), fmt.Sprintf("@book{k%d, title = {T}}", i), mStrings)
		if err != nil {
			return nil, err
		}
		s.pkg.Files[f.Name] = f
	}
	return s, nil
}

func resultOf(f *ast.File, base int, err error) string {
	if f == nil {
		return "no tree: " + errText(err)
	}
	o := dumpOpt{strings: true, pos: true, raw: true, docs: true}
	return f.Name + "\n" + dumpFile(f, base, o) + dumpComments(f, base) + errText(err)
}

// run performs an operation and describes its result.
func (c *cop) run(s *shared, y *yielder) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	switch c.kind {
	case 0: // parse, resolve, render through the shared instance
		f, err := s.biber.Parse(&yieldReader{c.src, y})
		if err != nil {
			return "parse: " + errText(err)
		}
		out = resultOf(f, 1, nil)
		es, err := s.biber.Resolve(f)
		out += describeEntries(es) + errText(err) + resultOf(f, 1, nil)
		w := &yieldWriter{y: y}
		err = s.biber.Render(w, f)
		return out + w.b.String() + errText(err)
	case 1: // a file in the shared file set
		f, err := parser.ParseFile(s.fset, "own.bib", c.src, c.mode&^mTrace)
		if f == nil {
			return "no tree: " + errText(err)
		}
		base := 1
		if len(f.Entries) > 0 {
			if tf := s.fset.File(f.Entries[0].Pos()); tf != nil {
				base = tf.Base()
			}
		} else if len(f.Comments) > 0 {
			if tf := s.fset.File(f.Comments[0].Pos()); tf != nil {
				base = tf.Base()
			}
		}
		out = resultOf(f, base, err)
		for _, e := range f.Entries {
			out += s.fset.Position(e.Pos()).String() + "\n"
		}
		return out
	case 2: // an expression and everything one does with it
		x, err := parser.ParseExpr(c.src)
		if err != nil || x == nil {
			return "expr: " + errText(err)
		}
		out = dumpExpr(x, 1, dumpOpt{strings: true, pos: true}) + asts.ExprString(x)
		w := &yieldWriter{y: y}
		err = s.text.Render(w, x)
		out += w.b.String() + errText(err)
		if p, ok := x.(*ast.ParsedText); ok {
			as, err := bibtex.ExtractAuthors(p)
			out += dumpExpr(as, 1, dumpOpt{strings: true}) + errText(err)
		}
		b := &ast.BibDecl{Tags: []*ast.TagStmt{{Name: "author", Value: x}, {Name: "title", Value: x}}}
		for _, r := range []bibtex.Resolver{s.author, bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), s.rend} {
			y.yield()
			err := r.Resolve(b)
			out += dumpDecl(b, 1, dumpOpt{strings: true, pos: true}) + errText(err)
		}
		for _, a := range accents {
			for _, l := range "aeiouAEIOUcnz" {
				r, err := render.RenderAccent(token.Accent(a), string(l))
				out += string(r) + errText(err)
			}
		}
		return out
	case 3: // read the shared trees
		tree := s.tree
		if c.arg%2 == 1 {
			tree = s.resolved
		}
		var b strings.Builder
		if c.arg%3 == 1 { // the shared package
			err := ast.Walk(s.pkg, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
				y.yield()
				fmt.Fprintf(&b, "%v %v %d %d;", n.Kind(), enter, n.Pos(), n.End())
				return ast.WalkContinue, nil
			})
			w := &yieldWriter{y: y}
			err2 := s.biber.Render(w, s.pkg)
			es, err3 := bibtex.New().Resolve(s.pkg)
			return b.String() + errText(err) + w.b.String() + errText(err2) + describeEntries(es) + errText(err3)
		}
		err := ast.Walk(tree, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
			y.yield()
			fmt.Fprintf(&b, "%v %v %d %d;", n.Kind(), enter, n.Pos(), n.End())
			switch x := n.(type) {
			case *ast.ParsedText:
				if enter && x.Depth == 0 {
					w := &yieldWriter{y: y}
					err := s.text.Render(w, x)
					as, err2 := bibtex.ExtractAuthors(x)
					b.WriteString(asts.ExprString(x) + w.b.String() + errText(err) + dumpExpr(as, 1, dumpOpt{strings: true}) + errText(err2))
				}
			case *ast.BibDecl:
				p := s.fset.Position(x.Pos())
				fmt.Fprintf(&b, "%s:%d:%d", p.Filename, p.Line, p.Column)
			}
			return ast.WalkContinue, nil
		})
		w := &yieldWriter{y: y}
		err2 := s.biber.Render(w, tree)
		es, err3 := bibtex.New().Resolve(tree) // no resolvers: reads only
		return b.String() + errText(err) + w.b.String() + errText(err2) + describeEntries(es) + errText(err3)
	case 4: // scan
		var sc scanner.Scanner
		run := &scanRun{}
		file := initScan(&sc, c.src, scanner.Mode(c.arg%4), true, run)
		for i := 0; i < len(c.src)+3; i++ {
			pos, tok, lit := sc.Scan()
			run.toks = append(run.toks, scanTok{int(pos) - file.Base(), tok, lit})
			if tok == token.EOF {
				break
			}
			if i%8 == 0 {
				y.yield()
			}
		}
		run.count = sc.ErrorCount
		return describeRun(run)
	case 5: // configure an instance of one's own in another way
		b := bibtex.New(bibtex.WithParserMode(c.mode&^mTrace|mStrings), bibtex.WithRenderer(c.node, func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
			y.yield()
			_, err := fmt.Fprintf(w, "[%d]", c.arg)
			return ast.WalkSkipChildren, err
		}))
		f, err := b.Parse(&yieldReader{c.src, y})
		if err != nil {
			return "parse: " + errText(err)
		}
		w := &yieldWriter{y: y}
		err = b.Render(w, f)
		w2 := &yieldWriter{y: y}
		err2 := bibtex.New().Render(w2, f)
		return w.b.String() + errText(err) + "|" + w2.b.String() + errText(err2)
	default: // an instance from the shared options
		var mark []int
		opts := append(s.opts[:len(s.opts):len(s.opts)], bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error {
			mark = append(mark, c.arg)
			return nil
		})))
		b := bibtex.New(opts...)
		own := func(n int) bibtex.Option {
			return bibtex.WithResolvers(bibtex.ResolverFunc(func(ast.Node) error {
				mark = append(mark, n)
				return nil
			}))
		}
		b1 := bibtex.New(bibtex.WithResolvers(s.spare...), own(1))
		b2 := bibtex.New(bibtex.WithResolvers(s.spare...), own(2), own(3))
		y.yield()
		for _, b := range []*bibtex.Biber{b1, b2} {
			if _, err := b.Resolve(&ast.File{}); err != nil {
				return "resolve: " + errText(err)
			}
		}
		if fmt.Sprint(mark) != "[1 2 3]" {
			c.bad = fmt.Sprintf("two instances made from one slice of resolvers, with resolver 1 and with resolvers 2 and 3 of their own, run %v", mark)
		}
		f, err := b.Parse(&yieldReader{c.src, y})
		if err != nil {
			return "parse: " + errText(err)
		}
		es, err := b.Resolve(f)
		return fmt.Sprint(mark) + describeEntries(es) + errText(err) + resultOf(f, 1, nil)
	}
}

var copNames = []string{"parse resolve render", "file in the shared set", "expression", "shared tree read", "scanner", "instance configured", "instance from shared options"}

func runC11(t *T) {
	r := t.R
	sharedDoc := func() string {
		g := newGen(r, true)
		g.okAcc = r.IntN(2) == 0
		d := g.docN(1 + r.IntN(4))
		d.decls = append(d.decls, &mDecl{kind: 'b', typ: "book", items: []*mItem{{name: "k"}, {name: "author", val: namesLiteral(t, false)}, {name: "title", val: g.literal()}}})
		return d.emit(randLayout(r))
	}
	src := sharedDoc()
	mode := mStrings | randFlags(t)&^mTrace
	nk := pick(r, allKinds())

	// Scripts. Goroutines often work on the same text, each on a tree of its own.
	ng := 2 + r.IntN(7)
	var texts []string
	for n := 1 + r.IntN(4); n > 0; n-- {
		if r.IntN(4) == 0 {
			texts = append(texts, hostile(t))
		} else {
			texts = append(texts, sharedDoc())
		}
	}
	var lits []string
	for n := 1 + r.IntN(3); n > 0; n-- {
		g := newGen(r, false)
		if r.IntN(2) == 0 {
			lits = append(lits, litSource(t, namesLiteral(t, false)))
		} else {
			lits = append(lits, litSource(t, g.literal()))
		}
	}
	focus := -1
	if r.IntN(3) == 0 {
		focus = r.IntN(len(copNames)) // everyone does the same thing
	}
	scripts := make([][]*cop, ng)
	var in strings.Builder
	for i := range scripts {
		for n := 1 + r.IntN(5); n > 0; n-- {
			c := &cop{kind: r.IntN(len(copNames)), src: pick(r, texts), mode: randMode(t), node: pick(r, allKinds()), arg: r.IntN(100)}
			if focus >= 0 {
				c.kind = focus
			}
			if c.kind == 2 {
				c.src = pick(r, lits)
			}
			scripts[i] = append(scripts[i], c)
			fmt.Fprintf(&in, "g%d %s %q; ", i, copNames[c.kind], c.src)
		}
	}
	t.Input(in.String())
	seeds := make([]uint64, ng)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}

	// Alone.
	want := make([][]string, ng)
	for i, sc := range scripts {
		s, err := newShared(src, mode, nk)
		if err != nil {
			t.Fail("a well-formed document is rejected: %v", err)
		}
		y := &yielder{r: rand.New(rand.NewPCG(seeds[i], 1))}
		for _, c := range sc {
			want[i] = append(want[i], c.run(s, y))
			t.Eval()
		}
	}

	// Together.
	s, err := newShared(src, mode, nk)
	if err != nil {
		t.Fail("a well-formed document is rejected: %v", err)
	}
	o := dumpOpt{strings: true, pos: true, raw: true, docs: true}
	before := dumpFile(s.tree, 1, o) + dumpFile(s.resolved, 1, o)
	type span struct {
		g, op int
		at    time.Time
		end   bool
	}
	spans := make([][]span, ng)
	got := make([][]string, ng)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			y := &yielder{r: rand.New(rand.NewPCG(seeds[i], 2))}
			<-start
			for k, c := range scripts[i] {
				spans[i] = append(spans[i], span{i, k, time.Now(), false})
				got[i] = append(got[i], c.run(s, y))
				spans[i] = append(spans[i], span{i, k, time.Now(), true})
			}
		}()
	}
	close(start)
	wg.Wait()

	for i := range scripts {
		for k, c := range scripts[i] {
			t.Eval()
			if got[i][k] != want[i][k] {
				t.Fail("goroutine %d, operation %d (%s): together it gives another result than alone\n%s", i, k, copNames[c.kind], diff(want[i][k], got[i][k]))
			}
			if c.bad != "" {
				t.Fail("goroutine %d, operation %d (%s): %s", i, k, copNames[c.kind], c.bad)
			}
			t.Event(copNames[c.kind], 1)
		}
	}
	if after := dumpFile(s.tree, 1, o) + dumpFile(s.resolved, 1, o); after != before {
		t.Fail("the shared trees change\n%s", diff(before, after))
	}
	t.Event("shared tree unchanged", 1)

	// What was observed: the interleaving.
	var all []span
	for _, sp := range spans {
		all = append(all, sp...)
	}
	sort.SliceStable(all, func(a, b int) bool { return all[a].at.Before(all[b].at) })
	var order strings.Builder
	open, overlaps := 0, 0
	for _, sp := range all {
		if sp.end {
			open--
		} else {
			if open > 0 {
				overlaps++
			}
			open++
		}
		fmt.Fprintf(&order, "%d.%d %v,", sp.g, scripts[sp.g][sp.op].kind, sp.end)
	}
	t.Event("overlapping operations", overlaps)
	t.MaxOf("goroutines", int64(ng))
	if overlaps > 0 {
		t.Distinct(order.String())
		t.Sample(order.String())
	}
}
