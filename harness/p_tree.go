package main

import (
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

func randFlags(t *T) parser.Mode {
	var m parser.Mode
	for _, f := range []parser.Mode{mComments, mDeclErr, mAll} {
		if t.R.IntN(2) == 0 {
			m |= f
		}
	}
	if t.R.IntN(12) == 0 {
		m |= mTrace
	}
	return m
}

func (t *T) docSize() int {
	switch n := t.R.IntN(20); {
	case n < 8:
		return 1
	case n < 19:
		return 1 + t.R.IntN(6)
	default:
		return 10 + t.R.IntN(30)
	}
}

// genDoc makes a well-formed document and a mode in which its model holds.
func (t *T) genDoc() (*mDoc, parser.Mode) {
	both := t.R.IntN(2) == 0
	g := newGen(t.R, both)
	g.urls = t.R.IntN(3) == 0
	d := g.docN(t.docSize())
	d.emit(randLayout(t.R))
	mode := randFlags(t)
	if !both || t.R.IntN(2) == 0 {
		mode |= mStrings
	}
	return d, mode
}

func (d *mDoc) weight() (tags, lits, concats int) {
	for _, dc := range d.decls {
		for _, it := range dc.items {
			if it.val != nil {
				tags++
				if it.val.kind == '#' {
					concats++
				}
				if it.val.kind == 'l' {
					lits++
				}
			}
		}
	}
	return
}

func (d *mDoc) events(t *T) {
	for _, dc := range d.decls {
		t.Event("decl "+string(dc.kind), 1)
		if dc.paren {
			t.Event("decl in parentheses", 1)
		}
		if dc.trailing {
			t.Event("trailing comma", 1)
		}
		nk := 0
		for _, it := range dc.items {
			if it.val == nil {
				nk++
			} else {
				t.Event("tag", 1)
				t.Event("value "+string(it.val.kind), 1)
			}
		}
		if dc.kind == 'b' {
			t.Event(fmt.Sprintf("entry with %d keys", min(nk, 2)), 1)
		}
	}
}

func init() {
	register(&Prop{
		ID: "C02", Level: "exploration", Quick: 800000, Thorough: 10000000, MinDist: 20000,
		Rule: "a random document model is written out with a random layout and parsed in a random mode; the dump of the tree must equal the dump of the model. Non-trivial: at least one tag; distinct by source text.",
		Need: []string{"decl b", "decl a", "decl p", "value n", "value i", "value l", "value #", "entry with 0 keys", "entry with 2 keys", "decl in parentheses", "trailing comma", "mode strings", "mode no strings"},
		Fixed: func() []string {
			return []string{
				"@book{foo}", "@book{foo,}", "@book(foo)", "@book{}", "@book{a = 1}", "@article {111, key = bar, extra }",
				"@a{k, x = {a} # {b}}", "@a{k, x = \"a\" # {b} # c # 2}", "@preamble({x})", "@preamble{ {x} # \"y\" }", "@string{a = {b{c}d}}",
				"@a{10.1145/12, y = {z}}", "@a{k, a = {{x}{y}}}", "@a{k, a = %c\n {x}}", "@a{k, a = {}}", "@a{k, a = \"\"}", "@a{k,y=1},@b{j,z=2}",
			}
		},
		RunFixed: func(t *T, in string) {
			for _, m := range []parser.Mode{0, mStrings} {
				f := t.mustParse(in, m)
				if len(f.Entries) == 0 {
					t.Fail("no declarations")
				}
			}
			fixedShapes(t, in)
		},
		Run: func(t *T) {
			d, mode := t.genDoc()
			f := t.mustParse(d.src, mode)
			o := dumpOpt{strings: mode&mStrings != 0, raw: true}
			want, got := d.dump(o), dumpFile(f, 1, o)
			if want != got {
				t.Fail("mode %d: wrong declarations\n%s", mode, diff(want, got))
			}
			if f.Name != caseFile {
				t.Fail("file name %q", f.Name)
			}
			d.events(t)
			if mode&mStrings != 0 {
				t.Event("mode strings", 1)
			} else {
				t.Event("mode no strings", 1)
			}
			if tags, _, _ := d.weight(); tags > 0 {
				t.Distinct(d.src)
				t.Sample(d.src)
			}
		},
	})

	register(&Prop{
		ID: "C03", Level: "exploration", Quick: 1200000, Thorough: 20000000, MinDist: 30000,
		Rule: "random string literals (all part kinds, nesting, both delimiters) are parsed alone and in documents with several literals; the value tree must equal the model of the literal. Non-trivial: at least two parts; distinct by source text.",
		Need: []string{"part t", "part ,", "part  ", "part ~", "part $", "part \\", "part '", "part m", "part u", "part g", "double quote inside braces", "sequence of literals"},
		Run: func(t *T) {
			g := newGen(t.R, false)
			g.depth, g.wide = 1+t.R.IntN(6), 1+t.R.IntN(8)
			o := dumpOpt{strings: true}
			if t.R.IntN(3) > 0 {
				x := g.literal()
				d := &mDoc{decls: []*mDecl{{kind: 'p', typ: "preamble", text: x}}}
				d.emit(&layout{r: t.R, nl: "\n"})
				src := d.src[x.pos : x.close+1]
				t.Input(src)
				got, err := t.parseExpr(src)
				if err != nil {
					t.Fail("a well-formed literal is rejected: %v", err)
				}
				var b strings.Builder
				dumpM(&b, x, o)
				if gs := dumpExpr(got, 1, o); gs != b.String() {
					t.Fail("wrong value tree\n%s", diff(b.String(), gs))
				}
				partEvents(t, x.parts)
				if len(x.parts) > 1 {
					t.Distinct(src)
					t.Sample(src)
				}
				return
			}
			dc := &mDecl{kind: 'b', typ: "book", items: []*mItem{{name: "key"}}}
			used := map[string]bool{}
			for n := 2 + t.R.IntN(4); n > 0; n-- {
				v := g.literal()
				if t.R.IntN(4) == 0 {
					v = &mExpr{kind: '#', xs: []*mExpr{g.literal(), g.literal()}}
				}
				dc.items = append(dc.items, &mItem{name: g.tagName(used), val: v})
			}
			d := &mDoc{decls: []*mDecl{dc, {kind: 'p', typ: "preamble", text: g.literal()}}}
			d.emit(&layout{r: t.R, nl: "\n", style: t.R.IntN(3)})
			f := t.mustParse(d.src, mStrings)
			if want, got := d.dump(o), dumpFile(f, 1, o); want != got {
				t.Fail("wrong value trees\n%s", diff(want, got))
			}
			t.Event("sequence of literals", 1)
			t.Distinct(d.src)
		},
	})

	register(&Prop{
		ID: "C06", Level: "exploration", Quick: 300000, Thorough: 4000000, MinDist: 10000,
		Rule: "one to three random documents are parsed into one file set; every position in the trees must be the offset at which the model's text was written, and translate to the right file name, line and column. Non-trivial: at least one tag; distinct by source text.",
		Need: []string{"positions translated", "second file in a set", "concat operator position", "closer position", "leaf end", "unusual name", "source of many lines"},
		Run: func(t *T) {
			fset := gotok.NewFileSet()
			n := 1 + t.R.IntN(tail(t.R, 3, 30))
			for i := 0; i < n; i++ {
				if t.R.IntN(12) == 0 { // a file of somebody else
					fset.AddFile(pick(t.R, []string{"", "f0.bib", "other.go"}), fset.Base()+t.R.IntN(3), t.R.IntN(2000))
				}
				d, mode := t.genDoc()
				name := fmt.Sprintf("f%d.bib", i)
				if t.R.IntN(3) == 0 {
					name = pick(t.R, []string{"", "./", "a//b/", "/x/../", "../"}) + fileName(t.R)
					t.Event("unusual name", 1)
				}
				t.Input(d.src)
				t.Guard(len(d.src))
				base := fset.Base()
				f, err := parser.ParseFile(fset, name, d.src, mode)
				t.Eval()
				if err != nil {
					t.Fail("a well-formed document is rejected: %v", err)
				}
				o := dumpOpt{strings: mode&mStrings != 0, raw: true, pos: true}
				want, got := d.dump(o), dumpFile(f, base, o)
				if want != got {
					t.Fail("mode %d, file %d: wrong positions\n%s", mode, i, diff(want, got))
				}
				if want, got := d.dumpComments(), dumpComments(f, base); want != got {
					t.Fail("wrong comment positions\n%s", diff(want, got))
				}
				checkPositions(t, fset, f, name, d.src, base)
				if strings.Count(d.src, "\n") > 4000 {
					t.Event("source of many lines", 1)
				}
				if i > 0 {
					t.Event("second file in a set", 1)
				}
				if tags, _, _ := d.weight(); tags > 0 {
					t.Distinct(d.src)
					t.Sample(d.src)
				}
			}
		},
	})

	register(&Prop{
		ID: "C07", Level: "exploration", Quick: 200000, Thorough: 4000000, MinDist: 8000,
		Rule: "random documents, well-formed or hostile, are parsed in several mode combinations and the results compared. Non-trivial: a tag in a well-formed document, or an error in a hostile one; distinct by source text.",
		Need: []string{"well-formed, modes compared", "well-formed, strings on and off", "hostile accepted", "hostile rejected", "errors dropped without all-errors"},
		Run:  runC07,
	})

	register(&Prop{
		ID: "C08", Level: "exploration", Quick: 360000, Thorough: 6000000, MinDist: 8000,
		Rule: "the same random model is written out in several layouts, or two models one after the other, or each value alone; the parsed contents must agree. Non-trivial: at least one tag; distinct by source text.",
		Need: []string{"pair of documents", "layouts compared", "values parsed alone", "layout with CRLF", "layout with BOM"},
		Run:  runC08,
	})

	register(&Prop{
		ID: "C09", Level: "exploration", Quick: 600000, Thorough: 8000000, MinDist: 15000,
		Rule: "random documents with comments in every place between tokens; the file's comment groups, their texts and positions, and the documentation of every declaration and tag must be those that line adjacency in the source determines. Non-trivial: at least two comments; distinct by source text.",
		Need: []string{"comment", "group of several", "documented node", "comment on a token's line", "percent inside a string"},
		Run: func(t *T) {
			both := t.R.IntN(2) == 0
			g := newGen(t.R, both)
			d := g.docN(1 + t.R.IntN(4))
			l := randLayout(t.R)
			l.comments, l.style = true, 1+t.R.IntN(2)
			d.emit(l)
			mode := randFlags(t)
			if !both || t.R.IntN(2) == 0 {
				mode |= mStrings
			}
			f := t.mustParse(d.src, mode)
			if want, got := d.dumpComments(), dumpComments(f, 1); want != got {
				t.Fail("mode %d: wrong comment groups\n%s", mode, diff(want, got))
			}
			o := dumpOpt{strings: mode&mStrings != 0, docs: true}
			if want, got := d.dump(o), dumpFile(f, 1, o); want != got {
				t.Fail("mode %d: wrong documentation\n%s", mode, diff(want, got))
			}
			if len(d.decls) > 0 {
				td := &treeDump{o: o, base: 1}
				if want, got := " doc="+d.docText(d.fileDoc), td.docText(f.Doc); want != got {
					t.Fail("wrong documentation of the file: want %s, got %s", want, got)
				}
			}
			t.Event("comment", len(d.comments))
			for _, grp := range d.groups {
				if len(grp) > 1 {
					t.Event("group of several", 1)
				}
				lineStart := strings.LastIndexByte(d.src[:d.comments[grp[0]].pos], '\n') + 1
				if strings.Trim(d.src[lineStart:d.comments[grp[0]].pos], " \t\r\uFEFF") != "" {
					t.Event("comment on a token's line", 1)
				}
			}
			for _, dc := range d.decls {
				if dc.doc != nil {
					t.Event("documented node", 1)
				}
				for _, it := range dc.items {
					if it.doc != nil && it.val != nil {
						t.Event("documented node", 1)
					}
					if it.val != nil && strings.Contains(it.val.raw, "%") {
						t.Event("percent inside a string", 1)
					}
				}
			}
			if len(d.comments) > 1 {
				t.Distinct(d.src)
				t.Sample(d.src)
			}
		},
	})
}

func partEvents(t *T, ps []*mPart) {
	for _, p := range ps {
		t.Event("part "+string(p.kind), 1)
		if p.kind == 't' && strings.Contains(p.s, `"`) {
			t.Event("double quote inside braces", 1)
		}
		partEvents(t, p.parts)
	}
}

// fixedShapes compares the fixed documents with dumps written by hand.
func fixedShapes(t *T, in string) {
	want := map[string]string{
		"@book{foo}":                        "entry \"book\" close\n  key \"foo\"\n",
		"@article {111, key = bar, extra }": "entry \"article\" close\n  key \"111\"\n  extra key \"extra\"\n  tag \"key\" = id(\"bar\")\n",
		"@a{k, x = \"a\" # {b} # c # 2}":    "entry \"a\" close\n  key \"k\"\n  tag \"x\" = (str(quote 0 text(\"a\")) # (str(brace 0 text(\"b\")) # (id(\"c\") # num(\"2\"))))\n",
		"@a{10.1145/12, y = {z}}":           "entry \"a\" close\n  key \"10.1145/12\"\n  tag \"y\" = str(brace 0 text(\"z\"))\n",
	}[in]
	if want == "" {
		return
	}
	f := t.mustParse(in, mStrings)
	if got := dumpFile(f, 1, dumpOpt{strings: true}); got != want {
		t.Fail("%s", diff(want, got))
	}
}

// ---------------------------------------------------------------------------
// Nodes of a tree, by a recursion of our own.

func childNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	add := func(x ast.Expr) {
		if x != nil {
			out = append(out, x)
		}
	}
	switch t := n.(type) {
	case *ast.Package:
		for _, name := range sortedNames(t) {
			out = append(out, t.Files[name])
		}
	case *ast.File:
		for _, d := range t.Entries {
			out = append(out, d)
		}
	case *ast.BibDecl:
		for _, tag := range t.Tags {
			out = append(out, tag)
		}
	case *ast.AbbrevDecl:
		if t.Tag != nil {
			out = append(out, t.Tag)
		}
	case *ast.PreambleDecl:
		add(t.Text)
	case *ast.TagStmt:
		add(t.Value)
	case *ast.ParsedText:
		for _, v := range t.Values {
			add(v)
		}
	case *ast.ConcatExpr:
		add(t.X)
		add(t.Y)
	case *ast.TextMacro:
		for _, v := range t.Values {
			add(v)
		}
	case ast.Authors:
		for _, a := range t {
			out = append(out, a)
		}
	case *ast.Author:
		add(t.First)
		add(t.Prefix)
		add(t.Last)
		add(t.Suffix)
	}
	return out
}

func eachNode(n ast.Node, f func(ast.Node)) {
	f(n)
	for _, c := range childNodes(n) {
		eachNode(c, f)
	}
}

func checkPositions(t *T, fset *gotok.FileSet, f *ast.File, name, src string, base int) {
	check := func(what string, p gotok.Pos) int {
		off := int(p) - base
		if off < 0 || off > len(src) {
			t.Fail("%s: position %d is outside its file", what, off)
		}
		got := fset.Position(p)
		line := 1 + strings.Count(src[:off], "\n")
		col := off - strings.LastIndexByte(src[:off], '\n')
		want := gotok.Position{Filename: name, Offset: off, Line: line, Column: col}
		if got != want {
			t.Fail("%s: position translates to %v (offset %d), want %v (offset %d)", what, got, got.Offset, want, want.Offset)
		}
		t.Event("positions translated", 1)
		return off
	}
	at := func(what string, p gotok.Pos, first string) {
		off := check(what, p)
		if !strings.HasPrefix(src[off:], first) {
			t.Fail("%s at offset %d does not point at %q", what, off, first)
		}
	}
	node := func(n ast.Node) {
		what := n.Kind().String()
		p := check(what, n.Pos())
		e := check(what+" end", n.End())
		if e < p {
			t.Fail("%s ends at %d before its start %d", what, e, p)
		}
		// A leaf ends right behind its text.
		ends := func(text string) {
			if e != p+len(text) || src[p:e] != text {
				t.Fail("%s spans %q, want %q", what, src[p:e], text)
			}
			t.Event("leaf end", 1)
		}
		switch x := n.(type) {
		case *ast.Ident:
			ends(x.Name)
		case *ast.Number:
			ends(x.Value)
		case *ast.TextComma:
			ends(",")
		case *ast.TextNBSP:
			ends("~")
		case *ast.TextMath:
			ends("$" + x.Value + "$")
		case *ast.TextEscaped:
			ends(`\` + x.Value)
		case *ast.TextSpace:
			ends(x.Value)
		case *ast.Text:
			if !strings.Contains(x.Value, "://") {
				ends(x.Value)
			}
		}
		switch x := n.(type) {
		case *ast.ConcatExpr:
			at("concat operator", x.OpPos, "#")
			t.Event("concat operator position", 1)
		case *ast.ParsedText:
			cl := "}"
			if x.Delim == ast.QuoteDelimiter {
				cl = `"`
			}
			at("opener", x.Opener, src[p:p+1])
			at("closer", x.Closer, cl)
			t.Event("closer position", 1)
		case *ast.TextAccent:
			at("accent", x.ValuePos, `\`+string(rune(x.Accent)))
			at("accented letter", x.Text.ValuePos, x.Text.Value)
		case *ast.Text:
			if o := int(x.ValuePos) - base; strings.Contains(x.Value, "://") && o >= 0 && o < len(src) && !strings.HasPrefix(src[o:], x.Value) {
				at("text", x.ValuePos, src[o:min(o+1, len(src))]+x.Value) // an address, whose position is that of the delimiter
				if strings.IndexByte("{\"", src[o]) < 0 {
					t.Fail("the address %q does not begin at a delimiter", x.Value)
				}
				break
			}
			at("text", x.ValuePos, x.Value)
		case *ast.TextMacro:
			at("macro", x.Cmd, `\`+x.Name)
			if len(x.Values) > 0 {
				at("macro end", x.RBrace, "}")
			}
		case *ast.BibDecl:
			at("entry", x.Entry, "@")
			if x.Key != nil {
				at("key", x.Key.NamePos, x.Key.Name)
			}
			for _, k := range x.ExtraKeys {
				at("extra key", k.NamePos, k.Name)
			}
		case *ast.AbbrevDecl:
			at("abbreviation", x.Entry, "@")
		case *ast.PreambleDecl:
			at("preamble", x.Entry, "@")
		case *ast.TagStmt:
			at("tag", x.NamePos, x.RawName)
		case *ast.TextMath:
			at("math", x.ValuePos, "$"+x.Value)
		case *ast.TextEscaped:
			at("escape", x.ValuePos, `\`+x.Value)
		case *ast.TextComma:
			at("comma", x.ValuePos, ",")
		case *ast.TextNBSP:
			at("nbsp", x.ValuePos, "~")
		}
	}
	for _, d := range f.Entries {
		eachNode(d, node)
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			at("comment", c.Start, c.Text)
			if e := check("comment end", c.End()); e != int(c.Start)-base+len(c.Text) {
				t.Fail("comment %q ends at %d, %d bytes after its start", c.Text, e, e-int(c.Start)+base)
			}
		}
	}
}

// ---------------------------------------------------------------------------

// structure describes a tree without what string literals contain.
func structure(f *ast.File) string {
	d := &treeDump{o: dumpOpt{pos: true, raw: true}, base: 1}
	var b strings.Builder
	var expr func(x ast.Expr)
	expr = func(x ast.Expr) {
		switch v := x.(type) {
		case *ast.ConcatExpr:
			b.WriteByte('(')
			expr(v.X)
			fmt.Fprintf(&b, " #%d ", v.OpPos)
			expr(v.Y)
			b.WriteByte(')')
		case *ast.UnparsedText:
			q := v.Type.String() == "String"
			fmt.Fprintf(&b, "lit %d-%d quote=%v", v.ValuePos, int(v.ValuePos)+1+len(v.Value), q)
		case *ast.ParsedText:
			fmt.Fprintf(&b, "lit %d-%d quote=%v", v.Opener, v.Closer, v.Delim == ast.QuoteDelimiter)
		default:
			b.WriteString(dumpExpr(x, 1, d.o))
		}
	}
	for _, dc := range f.Entries {
		switch v := dc.(type) {
		case *ast.BibDecl:
			fmt.Fprintf(&b, "entry %q %d-%d", v.Type, v.Entry, v.RBrace)
			if v.Key != nil {
				fmt.Fprintf(&b, " key %q@%d", v.Key.Name, v.Key.NamePos)
			}
			for _, k := range v.ExtraKeys {
				fmt.Fprintf(&b, " extra key %q@%d", k.Name, k.NamePos)
			}
			for _, tag := range v.Tags {
				fmt.Fprintf(&b, "\n tag %q %q@%d = ", tag.Name, tag.RawName, tag.NamePos)
				expr(tag.Value)
			}
		case *ast.AbbrevDecl:
			fmt.Fprintf(&b, "abbrev %d-%d %q %q@%d = ", v.Entry, v.RBrace, v.Tag.Name, v.Tag.RawName, v.Tag.NamePos)
			expr(v.Tag.Value)
		case *ast.PreambleDecl:
			fmt.Fprintf(&b, "preamble %d-%d ", v.Entry, v.RBrace)
			expr(v.Text)
		default:
			b.WriteString(dumpDecl(dc, 1, d.o))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func fullDump(f *ast.File, strs bool) string {
	o := dumpOpt{pos: true, raw: true, docs: true, strings: strs}
	td := &treeDump{o: o, base: 1}
	return fmt.Sprintf("name %q%s\n", f.Name, td.docText(f.Doc)) + dumpFile(f, 1, o) + dumpComments(f, 1)
}

func errCounts(l goscan.ErrorList) map[string]int {
	m := map[string]int{}
	for _, e := range l {
		m[e.Error()]++
	}
	return m
}

func runC07(t *T) {
	flags := []parser.Mode{mComments, mTrace, mDeclErr, mAll}
	combo := func() parser.Mode {
		var m parser.Mode
		for _, f := range flags {
			if t.R.IntN(2) == 0 {
				m |= f
			}
		}
		return m
	}
	if t.R.IntN(2) == 0 {
		g := newGen(t.R, true)
		g.urls = t.R.IntN(3) == 0
		d := g.docN(1 + t.R.IntN(4))
		d.emit(randLayout(t.R))
		t.Input(d.src)
		base := map[parser.Mode]*ast.File{}
		for _, s := range []parser.Mode{0, mStrings} {
			base[s] = t.mustParse(d.src, s)
			want := fullDump(base[s], s != 0)
			for i := 0; i < 3; i++ {
				m := s | combo()
				if i == 0 {
					m = s | flags[t.R.IntN(len(flags))]
				}
				f := t.mustParse(d.src, m)
				if got := fullDump(f, s != 0); got != want {
					t.Fail("mode %d changes the tree of mode %d\n%s", m, s, diff(want, got))
				}
				t.Event("well-formed, modes compared", 1)
			}
		}
		if !g.urls {
			if want, got := structure(base[0]), structure(base[mStrings]); want != got {
				t.Fail("parsing strings changes more than the strings\n%s", diff(want, got))
			}
			t.Event("well-formed, strings on and off", 1)
		}
		if tags, _, _ := d.weight(); tags > 0 {
			t.Distinct(d.src)
			t.Sample(d.src)
		}
		return
	}
	src := hostile(t)
	t.Input(src)
	for _, s := range []parser.Mode{0, mStrings} {
		_, err0 := t.parseDoc(src, s)
		f1, err1 := t.parseDoc(src, s|mAll)
		if (err0 == nil) != (err1 == nil) {
			t.Fail("all-errors mode changes whether the input is accepted: %v / %v", err0, err1)
		}
		all := errCounts(errList(err1))
		for k, n := range errCounts(errList(err0)) {
			if n > all[k] {
				t.Fail("without all-errors mode there are %d errors %q, with it %d", n, k, all[k])
			}
		}
		// Only further errors on a line and what follows the first ten are left out.
		lines := map[int]int{}
		for _, e := range errList(err0) {
			lines[e.Pos.Line]++
		}
		for _, e := range errList(err1) {
			if lines[e.Pos.Line] > 0 {
				continue
			}
			n := 0
			for _, e0 := range errList(err0) {
				if e0.Pos.Offset < e.Pos.Offset {
					n++
				}
			}
			if n < 10 {
				t.Fail("without all-errors mode %v is left out, though only %d errors come before it", e, n)
			}
			t.Event("left out after ten errors", 1)
		}
		nscan := scanErrors(src, s)
		if n := len(errList(err0)); n > 11+nscan {
			t.Fail("without all-errors mode %d errors are reported (%d of them from scanning)", n, nscan)
		}
		if len(errList(err0)) < len(errList(err1)) {
			t.Event("errors dropped without all-errors", 1)
		}
		m := combo()
		f2, err2 := t.parseDoc(src, s|m)
		if (err2 == nil) != (err0 == nil) {
			t.Fail("mode %d changes whether the input is accepted: %v / %v", m, err0, err2)
		}
		ref := err0
		if m&mAll != 0 {
			ref = err1
		}
		if errText(ref) != errText(err2) {
			t.Fail("mode %d changes the errors\n%s\n---\n%s", m, errText(ref), errText(err2))
		}
		if err0 == nil {
			if a, b := fullDump(f1, s != 0), fullDump(f2, s != 0); a != b {
				t.Fail("mode %d changes the tree\n%s", m, diff(a, b))
			}
			t.Event("hostile accepted", 1)
		} else {
			t.Event("hostile rejected", 1)
			t.Distinct(src)
		}
	}
}

// ---------------------------------------------------------------------------

func (x *mExpr) end() int {
	switch x.kind {
	case 'l':
		return x.close + 1
	case '#':
		return x.xs[len(x.xs)-1].end()
	default:
		return x.pos + len(x.s)
	}
}

func (x *mExpr) start() int {
	if x.kind == '#' {
		return x.xs[0].start()
	}
	return x.pos
}

func runC08(t *T) {
	both := t.R.IntN(2) == 0
	g := newGen(t.R, both)
	mode := randFlags(t)
	if !both || t.R.IntN(2) == 0 {
		mode |= mStrings
	}
	o := dumpOpt{strings: mode&mStrings != 0}
	kind := t.R.IntN(3)
	g.urls = kind < 2 && t.R.IntN(3) == 0
	switch kind {
	case 0: // one after the other
		a, b := g.docN(1+t.R.IntN(3)), g.docN(1+t.R.IntN(3))
		la, lb := randLayout(t.R), randLayout(t.R)
		lb.bom = false
		sa, sb := a.emit(la), b.emit(lb)
		sep := "\n"
		if len(a.comments) == 0 && t.R.IntN(2) == 0 {
			sep = ""
		}
		fa, fb := t.mustParse(sa, mode), t.mustParse(sb, mode)
		f := t.mustParse(sa+sep+sb, mode)
		want := dumpFile(fa, 1, o) + dumpFile(fb, 1, o)
		if got := dumpFile(f, 1, o); got != want {
			t.Fail("the documents do not parse independently\n%s", diff(want, got))
		}
		t.Event("pair of documents", 1)
		t.Distinct(sa + sb)
	case 1: // layouts
		d := g.docN(1 + t.R.IntN(4))
		d.emit(&layout{r: t.R, nl: "\n", style: 0})
		want := ""
		for i := 0; i < 3; i++ {
			l := randLayout(t.R)
			l.recase, l.redelim, l.recomma = t.R.IntN(2) == 0, t.R.IntN(2) == 0, t.R.IntN(2) == 0
			d.emit(l)
			f := t.mustParse(d.src, mode)
			got := dumpFile(f, 1, o)
			if i == 0 {
				want = got
			} else if got != want {
				t.Fail("another layout changes the contents\n%s", diff(want, got))
			}
			t.Event("layouts compared", 1)
			if l.nl != "\n" {
				t.Event("layout with CRLF", 1)
			}
			if l.bom {
				t.Event("layout with BOM", 1)
			}
			if tags, _, _ := d.weight(); tags > 0 {
				t.Distinct(d.src)
				t.Sample(d.src)
			}
		}
	default: // values alone
		d := g.docN(1 + t.R.IntN(3))
		d.emit(randLayout(t.R))
		f := t.mustParse(d.src, mStrings)
		o.strings = true
		for i, dc := range d.decls {
			var vals []*mExpr
			var exprs []ast.Expr
			switch x := f.Entries[i].(type) {
			case *ast.PreambleDecl:
				vals, exprs = append(vals, dc.text), append(exprs, x.Text)
			case *ast.AbbrevDecl:
				vals, exprs = append(vals, dc.items[0].val), append(exprs, x.Tag.Value)
			case *ast.BibDecl:
				for _, it := range dc.items {
					if it.val != nil {
						vals = append(vals, it.val)
					}
				}
				for _, tag := range x.Tags {
					exprs = append(exprs, tag.Value)
				}
			}
			if len(vals) != len(exprs) {
				t.Fail("declaration %d has %d values, want %d", i, len(exprs), len(vals))
			}
			for j, v := range vals {
				s := d.src[v.start():v.end()]
				t.Input(s)
				got, err := t.parseExpr(s)
				if err != nil {
					t.Fail("the value is rejected alone: %v", err)
				}
				if a, b := dumpExpr(exprs[j], 1, o), dumpExpr(got, 1, o); a != b {
					t.Fail("the value differs inside a declaration (want) and alone (got)\n%s", diff(a, b))
				}
				t.Event("values parsed alone", 1)
				t.Distinct(s)
			}
		}
	}
}
