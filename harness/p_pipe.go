package main

import (
	"fmt"
	"io"
	"slices"
	"sort"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// C27: the whole way from source to resolved entries.

// afterEscapes is x as it is once escapes are simplified.
func afterEscapes(x *mExpr) *mExpr {
	y := copyExpr(x)
	var parts func(ps []*mPart)
	parts = func(ps []*mPart) {
		for _, p := range ps {
			if p.kind == '\\' {
				p.kind = 't'
			}
			parts(p.parts)
		}
	}
	var rec func(x *mExpr)
	rec = func(x *mExpr) {
		parts(x.parts)
		x.ops = make([]int, len(x.xs))
		for _, z := range x.xs {
			rec(z)
		}
	}
	rec(y)
	return y
}

func describeValue(x *mExpr) string {
	var b strings.Builder
	dumpM(&b, x, dumpOpt{strings: true})
	return b.String()
}

// resolvedValue describes the value of an item after resolving.
func resolvedValue(x *mExpr, names []*mName, simplified bool) (desc string, must bool) {
	switch {
	case names != nil:
		var b strings.Builder
		b.WriteString("authors[")
		for _, n := range names {
			w := [4]string{join(n.first), join(n.von), join(n.last), join(n.jr)}
			if n.others {
				w = [4]string{"", "", "others", ""}
			}
			fmt.Fprintf(&b, "author(text(%q)|text(%q)|text(%q)|text(%q)|);", w[0], w[1], w[2], w[3])
		}
		return b.String() + "]", true
	case x.kind == 'l':
		s, must, _ := plain(x.parts)
		return fmt.Sprintf("text(%q)", s), must
	case simplified:
		return describeValue(afterEscapes(x)), true
	default:
		return describeValue(x), true
	}
}

type wantEntry struct {
	typ, key string
	tags     map[string]string
}

func (e wantEntry) String() string {
	var names []string
	for n := range e.tags {
		names = append(names, n)
	}
	sort.Strings(names)
	s := fmt.Sprintf("%s %q\n", e.typ, e.key)
	for _, n := range names {
		s += fmt.Sprintf("  %q = %s\n", n, e.tags[n])
	}
	return s
}

func describeResolved(es []bibtex.Entry) string {
	s := ""
	for _, e := range es {
		w := wantEntry{e.Type, e.Key, map[string]string{}}
		for n, v := range e.Tags {
			w.tags[n] = dumpExpr(v, 1, dumpOpt{strings: true})
		}
		s += w.String()
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C27", Level: "exploration", Quick: 200000, Thorough: 3000000, MinDist: 20000,
		Rule: "random documents whose author and editor tags hold random lists of names are read through one instance with the author, escape and plain-text steps in random order, whole, entry by entry or as several files; every entry is compared with the model. Non-trivial: at least two tags; distinct by source text.",
		Need: []string{"entries compared", "positions scattered", "names", "plain text", "concatenation", "number", "abbreviation name", "escapes simplified", "escapes kept in concatenations", "refused for an accent", "entry by entry", "several files", "resolved again", "entry without key", "extra keys", "author tag of an abbreviation", "read in pieces", "authors after plain text refused", "author tag without a list refused"},
		Run:  runC27,
	})
}

func runC27(t *T) {
	r := t.R
	g := newGen(r, false)
	g.okAcc = r.IntN(8) > 0
	g.dup = false
	g.noURL = true
	nfiles := 1
	form := r.IntN(4)
	if form == 2 {
		nfiles = 1 + r.IntN(4)
	}
	// The steps.
	simplify := bibtex.Resolver(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver))
	steps := []bibtex.Resolver{bibtex.NewAuthorResolver("editor", "author"), bibtex.NewRenderParsedTextResolver()}
	simplified := false
	// Steps in the wrong order, or an author tag that holds no list, are refused.
	misuse, mustFail := r.IntN(12), false
	if misuse == 0 {
		steps[0], steps[1] = steps[1], steps[0]
	}
	for k := r.IntN(3); k > 0; k-- {
		at := r.IntN(len(steps) + 1)
		steps = append(steps[:at], append([]bibtex.Resolver{simplify}, steps[at:]...)...)
		simplified = true
	}
	var opts []bibtex.Option
	if r.IntN(2) == 0 {
		opts = append(opts, bibtex.WithResolvers(steps...))
	} else {
		for _, s := range steps {
			opts = append(opts, bibtex.WithResolvers(s))
		}
	}
	if r.IntN(2) == 0 {
		at := r.IntN(len(opts) + 1)
		opts = append(opts[:at], append([]bibtex.Option{bibtex.WithParserMode(parser.ParseStrings | randFlags(t)&^mTrace)}, opts[at:]...)...)
	}
	b := bibtex.New(opts...)

	// The documents.
	var files []*ast.File
	var fileNames []string
	want := map[string]string{}
	must, all, refusable := true, "", false
	tags := 0
	for i := range nfiles {
		d := g.docN(r.IntN(5))
		names := map[*mItem][]*mName{}
		for _, dc := range d.decls {
			if dc.kind == 'p' {
				continue
			}
			var keep []*mItem
			for _, it := range dc.items {
				low := strings.ToLower(it.name)
				if it.val == nil || low != "author" && low != "editor" || dc.kind == 'a' {
					if it.val != nil && dc.kind == 'a' && (low == "author" || low == "editor") {
						t.Event("author tag of an abbreviation", 1)
					}
					keep = append(keep, it)
				}
			}
			dc.items = keep
			if dc.kind == 'a' && r.IntN(4) == 0 {
				dc.items[0].name = recase(r, "author")
				t.Event("author tag of an abbreviation", 1)
			}
			if dc.kind == 'b' {
				for _, tag := range []string{"author", "editor"} {
					if r.IntN(3) == 0 {
						continue
					}
					ns, ps := nameList(t)
					it := &mItem{name: recase(r, tag), val: &mExpr{kind: 'l', quote: r.IntN(3) == 0, parts: ps}}
					names[it] = ns
					if misuse == 0 {
						mustFail = true
						t.Event("authors after plain text refused", 1)
					} else if misuse == 1 && r.IntN(3) == 0 {
						for x := g.value(); ; x = g.value() {
							if x.kind != 'l' {
								it.val = x
								break
							}
						}
						delete(names, it)
						mustFail = true
						t.Event("author tag without a list refused", 1)
					}
					at := r.IntN(len(dc.items) + 1)
					dc.items = append(dc.items[:at:at], append([]*mItem{it}, dc.items[at:]...)...)
				}
			}
		}
		d.emit(randLayout(r))
		all += d.src + "\x00"
		desc := ""
		for _, dc := range d.decls {
			w := wantEntry{strings.ToLower(dc.typ), "", map[string]string{}}
			keys := 0
			for _, it := range dc.items {
				if it.val == nil {
					if keys == 0 {
						w.key = it.name
					}
					keys++
					continue
				}
				v, m := resolvedValue(it.val, names[it], simplified)
				if names[it] == nil && it.val.kind == 'l' {
					_, _, can := plain(it.val.parts)
					refusable = refusable || !m || !can
				}
				must = must && m
				w.tags[strings.ToLower(it.name)] = v
				switch {
				case names[it] != nil:
					t.Event("names", len(names[it]))
				case it.val.kind == 'l':
					t.Event("plain text", 1)
				case it.val.kind == '#':
					t.Event("concatenation", 1)
					if e := describeValue(it.val); strings.Contains(e, "esc(") {
						if simplified {
							t.Event("escapes simplified", 1)
						} else {
							t.Event("escapes kept in concatenations", 1)
						}
					}
				case it.val.kind == 'n':
					t.Event("number", 1)
				case it.val.kind == 'i':
					t.Event("abbreviation name", 1)
				}
			}
			if dc.kind == 'b' {
				desc += w.String()
				tags += len(w.tags)
				if keys == 0 {
					t.Event("entry without key", 1)
				} else if keys > 1 {
					t.Event("extra keys", 1)
				}
			}
		}
		t.Input(d.src)
		var rd interface {
			Read([]byte) (int, error)
		} = strings.NewReader(d.src)
		if r.IntN(4) == 0 {
			rd = &pieces{s: d.src, n: 1 + r.IntN(40)}
			t.Event("read in pieces", 1)
		}
		t.Guard(len(d.src))
		f, err := b.Parse(rd)
		t.Done()
		t.Eval()
		if err != nil {
			t.Fail("a well-formed document is rejected: %v", err)
		}
		files = append(files, f)
		name := fmt.Sprintf("%c%d.bib", 'a'+r.IntN(26), i)
		if r.IntN(3) == 0 {
			name = fileName(r)
		}
		for slices.Contains(fileNames, name) {
			name += "_"
		}
		fileNames = append(fileNames, name)
		want[name] = desc
	}
	t.Input(all)
	if r.IntN(6) == 0 { // where nodes stand makes no difference
		for _, f := range files {
			scatterWith(r, f, false)
		}
		t.Event("positions scattered", 1)
	}
	var root ast.Node = files[0]
	if form == 2 {
		p := &ast.Package{Files: map[string]*ast.File{}}
		for i, n := range fileNames {
			p.Files[n] = files[i]
		}
		root = p
	}
	sort.Strings(fileNames)
	wanted := ""
	for _, n := range fileNames {
		wanted += want[n]
	}
	resolve := func(n ast.Node) ([]bibtex.Entry, error) {
		t.Guard(len(all))
		es, err := b.Resolve(n)
		t.Done()
		t.Eval()
		return es, err
	}
	var got []bibtex.Entry
	var err error
	if form == 3 {
		// The abbreviations of the file are not resolved then.
		for _, d := range files[0].Entries {
			if d, ok := d.(*ast.BibDecl); ok && err == nil {
				var es []bibtex.Entry
				es, err = resolve(d)
				got = append(got, es...)
			}
		}
	} else {
		got, err = resolve(root)
	}
	if mustFail && err == nil {
		t.Fail("an author tag that holds no list of names, or whose text was rendered before, is accepted")
	}
	if err != nil {
		if !refusable && !mustFail {
			t.Fail("resolving fails: %v", err)
		}
		if form != 3 && got != nil {
			t.Fail("entries next to the error %v", err)
		}
		if !mustFail {
			t.Event("refused for an accent", 1)
		}
		return
	}
	if g := describeResolved(got); g != wanted {
		t.Fail("form %d, steps %d, simplified %v: entries differ\n%s", form, len(steps), simplified, diff(wanted, g))
	}
	t.Event("entries compared", len(got))
	switch {
	case form == 3:
		t.Event("entry by entry", 1)
	case nfiles > 1:
		t.Event("several files", 1)
	}
	if r.IntN(4) == 0 {
		again := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver()))
		if simplified && r.IntN(2) == 0 {
			again = bibtex.New(bibtex.WithResolvers(simplify, bibtex.NewRenderParsedTextResolver()))
		}
		es, err := again.Resolve(root)
		if err != nil && form != 3 {
			t.Fail("resolving the resolved tree fails: %v", err)
		}
		if err == nil {
			if g := describeResolved(es); g != wanted {
				t.Fail("resolving the resolved tree changes the entries\n%s", diff(wanted, g))
			}
			t.Event("resolved again", 1)
		}
	}
	if tags >= 2 {
		t.Distinct(all)
		t.Sample(all)
	}
}

// pieces is a reader that returns a few bytes at a time.
type pieces struct {
	s string
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	n := min(len(b), p.n, len(p.s))
	copy(b, p.s[:n])
	p.s = p.s[n:]
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}
