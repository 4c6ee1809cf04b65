package main

import (
	"bytes"
	"cmp"
	"errors"
	"fmt"
	gotok "go/token"
	"io"
	"math/rand/v2"
	"reflect"
	"strings"
	"unicode"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

// plain is the plain text of parts. must: rendering must succeed; can: it may.
func plain(ps []*mPart) (s string, must, can bool) {
	var b strings.Builder
	must, can = plainTo(&b, ps)
	return b.String(), must, can
}

func plainTo(b *strings.Builder, ps []*mPart) (must, can bool) {
	must, can = true, true
	for _, p := range ps {
		switch p.kind {
		case 't', '\\', 'u':
			b.WriteString(p.s)
		case ',':
			b.WriteByte(',')
		case ' ', '~':
			b.WriteByte(' ')
		case '$':
			b.WriteString("$" + p.s + "$")
		case '\'':
			k := string(p.acc) + p.s
			if accentTable[k] == 0 {
				must = false
			}
			c := composedTable[k]
			if accentTable[k] != 0 {
				c = accentTable[k]
			}
			if c == 0 {
				can = false
			}
			b.WriteRune(c)
		case 'g':
			m, c := plainTo(b, p.parts)
			must, can = must && m, can && c
		}
	}
	return
}

// litSource writes a literal alone.
func litSource(t *T, x *mExpr) string {
	d := &mDoc{decls: []*mDecl{{kind: 'p', typ: "preamble", text: x}}}
	d.emit(&layout{r: t.R, nl: "\n"})
	return d.src[x.pos : x.close+1]
}

func (t *T) parseLiteral(x *mExpr) *ast.ParsedText {
	src := litSource(t, x)
	t.Input(src)
	v, err := t.parseExpr(src)
	if err != nil {
		t.Fail("a well-formed literal is rejected: %v", err)
	}
	p, ok := v.(*ast.ParsedText)
	if !ok {
		t.Fail("a literal is parsed as %T", v)
	}
	return p
}

func init() {
	register(&Prop{
		ID: "C16", Level: "exploration", Quick: 750000, Thorough: 12000000, MinDist: 20000,
		Rule: "random values and documents are rendered as plain text and compared with the text of the model; all 7x52 accents are rendered. Non-trivial: at least two parts; distinct by source text.",
		Need: []string{"tags renamed", "positions moved", "value rendered", "rendering refused", "document rendered", "tag replaced", "tag left alone", "abbreviation tag", "idempotent", "accent rendered", "accent refused", "damaged part", "concatenation rendered", "accent without a composed character", "accent composed"},
		Fixed: func() []string {
			var out []string
			for _, a := range accents {
				out = append(out, string(a))
			}
			return out
		},
		RunFixed: func(t *T, in string) {
			a := token.Accent([]rune(in)[0])
			for _, l := range letters {
				t.Input(in + string(l))
				r, err := render.RenderAccent(a, string(l))
				t.Eval()
				want := accentTable[in+string(l)]
				alt := composedTable[in+string(l)]
				switch {
				case want != 0 && (err != nil || r != want):
					t.Fail("accent %q on %q renders as %q (error %v), want %q", a, l, r, err, want)
				case want == 0 && err == nil && (alt == 0 || r != alt):
					t.Fail("accent %q on %q renders as %q", a, l, r)
				}
				if err == nil {
					t.Event("accent rendered", 1)
				} else {
					t.Event("accent refused", 1)
				}
			}
			for _, s := range []string{"", "ab", "aa", "1", " ", "é", "\xff"} {
				if r, err := render.RenderAccent(a, s); err == nil {
					t.Fail("accent %q on %q renders as %q", a, s, r)
				}
				t.Eval()
			}
			if r, err := render.RenderAccent(0, "a"); err == nil {
				t.Fail("no accent renders as %q", r)
			}
			// Something that has no plain text is an error.
			for _, bad := range []ast.Expr{&ast.BadExpr{}, &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "x"}, &ast.BadExpr{}}}, &ast.TextMacro{Name: "x", Values: []ast.Expr{&ast.BadExpr{}}}} {
				if err := render.NewTextRenderer().Render(io.Discard, bad); err == nil {
					t.Fail("a damaged part renders without an error")
				}
				t.Event("damaged part", 1)
			}
		},
		Run: runC16,
	})

	register(&Prop{
		ID: "C17", Level: "exploration", Quick: 180000, Thorough: 3000000, MinDist: 8000,
		Rule: "trees of parsed documents, packages, author lists and hand-made nodes are walked by visitors that skip random nodes and stop or fail at every event in turn (small trees) or at random events; the calls and the result are compared with a reference recursion. Non-trivial: at least five nodes; distinct by tree and behaviour.",
		Need: []string{"full walk", "stopped", "failed", "skipped", "failed with stop status", "node Authors", "node Author", "node Package", "node File", "node TextMacro", "node ConcatExpr", "node AbbrevDecl", "node PreambleDecl", "node BibDecl", "node TagStmt", "author with missing parts", "hand-made tree", "shared node", "walk inside a walk", "contents changed on entering", "positions scattered"},
		Run:  runC17,
	})

	register(&Prop{
		ID: "C18", Level: "exploration", Quick: 480000, Thorough: 8000000, MinDist: 8000,
		Rule: "trees are rendered with every kind's renderer observed, with one kind replaced, and with a renderer that skips, stops or fails at a random call; random literals without macros are rendered and parsed again. Non-trivial: at least five nodes or two parts; distinct by source text.",
		Need: []string{"renderer call", "one kind replaced", "other instance unchanged", "renderer failed", "renderer stopped", "renderer skipped", "literal round trip", "round trip with accent", "round trip with quotes", "default output of a tree", "kind of a node", "rendered inside a renderer", "options of other parts"},
		Run:  runC18,
	})

	register(&Prop{
		ID: "C19", Level: "exploration", Quick: 240000, Thorough: 5000000, MinDist: 5000,
		Rule: "values and documents are rendered to a writer that fails at each write in turn, accepting none or part of it, and with a node renderer that fails at a random call. Non-trivial: at least two writes; distinct by source text and fault.",
		Need: []string{"text fault", "node fault", "partial write", "renderer fault", "complete output", "nested text"},
		Run:  runC19,
	})

	register(&Prop{
		ID: "C23", Level: "exploration", Quick: 450000, Thorough: 6000000, MinDist: 10000,
		Rule: "escapes in random documents are simplified; the tree is compared with that of a second parse in which the monitor replaced every escape itself. Non-trivial: at least one escape; distinct by source text.",
		Need: []string{"tags renamed", "escape", "escape in a group", "escape in an abbreviation", "escape in a preamble", "escape in a concatenation", "text compared", "idempotent"},
		Run:  runC23,
	})

	register(&Prop{
		ID: "C24", Level: "exploration", Quick: 1200000, Thorough: 20000000, MinDist: 20000,
		Rule: "random lists of part strings go through the construction helpers and, joined, through the parser; arbitrary strings go through the helpers alone; descriptions of pairs of values (independent, or one edit apart) are compared with their dumps. Non-trivial: at least two parts; distinct by source text.",
		Need: []string{"built and parsed", "built at a depth", "entry built and parsed", "arbitrary strings", "put together of arbitrary strings", "equal pair", "different pair", "white space respelled", "built pair, equal", "built pair, different", "positions moved"},
		Fixed: func() []string {
			return []string{"$", "$$", "{", "}", "{}", "\\", "\\\\", "\\a", "", " ", "~", ",", "{ }", "{$}", "{{}", "{{a} b}", "\\é", "\\1", "$ $", "{\\}", "\"", "{a  b}"}
		},
		RunFixed: func(t *T, in string) { buildAny(t, in) },
		Run:      runC24,
	})
}

// ---------------------------------------------------------------------------
// C16

func renderText(t *T, x ast.Expr, size int) (string, error) {
	var w strings.Builder
	t.Guard(size)
	err := render.NewTextRenderer().Render(&w, x)
	t.Done()
	t.Eval()
	return w.String(), err
}

// anyAccent renders an accent over an arbitrary text.
func anyAccent(t *T) {
	r := t.R
	acc := pick(r, accents)
	if r.IntN(6) == 0 {
		acc = pick(r, []rune{'-', '=', 'H', 'z', 'v', 'u', 'é', ',', '(', 0, -1, 0x110000, ' ', '\\'})
	}
	s := ""
	for n := pick(r, []int{1, 1, 1, 1, 0, 2, 3, 4, 9}); n > 0; n-- {
		switch r.IntN(4) {
		case 0:
			s += pick(r, []string{"é", "ı", "ȷ", "œ", "\u0301", "漢", "!", " ", "~", "{", "\\", "i", "\x00", "\xff", "1"})
		default:
			s += string(letters[r.IntN(len(letters))])
		}
	}
	key := string(acc) + s
	t.Input(fmt.Sprintf("accent %q over %q", acc, s))
	x := &ast.TextAccent{Accent: token.Accent(acc), Text: &ast.Text{Value: s}}
	got, err := renderText(t, &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "<"}, x, &ast.Text{Value: ">"}}}, len(s))
	c, err2 := render.RenderAccent(token.Accent(acc), s)
	t.Eval()
	if (err == nil) != (err2 == nil) {
		t.Fail("rendering an accent: %v as a value, %v alone", err, err2)
	}
	must, can := accentTable[key], composedTable[key]
	if must != 0 {
		can = must
	}
	switch {
	case err != nil && must != 0:
		t.Fail("an accent is refused: %v", err)
	case err != nil:
		t.Event("accent without a composed character", 1)
	case can == 0:
		t.Fail("an accent that has no composed character renders as %q, %q", got, c)
	case c != can || got != "<"+string(can)+">":
		t.Fail("an accent renders as %q, %q, want %q", got, c, can)
	default:
		t.Event("accent composed", 1)
	}
}

func runC16(t *T) {
	if t.R.IntN(20) == 0 {
		anyAccent(t)
		return
	}
	g := newGen(t.R, false)
	g.okAcc = t.R.IntN(3) > 0
	if t.R.IntN(2) == 0 {
		x := g.literal()
		v := t.parseLiteral(x)
		want, must, can := plain(x.parts)
		got, err := renderText(t, v, len(t.input))
		switch {
		case err != nil && must:
			t.Fail("rendering fails: %v", err)
		case err != nil:
			t.Event("rendering refused", 1)
		case !can:
			t.Fail("a value with an accent that has no composed character renders as %q", got)
		case got != want:
			t.Fail("renders as %q, want %q", got, want)
		}
		t.Event("value rendered", 1)
		if t.R.IntN(6) == 0 {
			movePos(t, v)
			if again, err2 := renderText(t, v, len(t.input)); again != got || (err2 == nil) != (err == nil) {
				t.Fail("renders as %q (%v) at one place and as %q (%v) at another", got, err, again, err2)
			}
		}
		if err == nil && t.R.IntN(8) == 0 {
			// Operands of a concatenation, in order.
			in := t.input
			y := g.literal()
			v2 := t.parseLiteral(y)
			want2, must2, _ := plain(y.parts)
			got, err := renderText(t, &ast.ConcatExpr{X: v, Y: v2}, len(in)+len(t.input))
			if err == nil {
				mid := strings.TrimPrefix(got, want)
				if len(got) < len(want)+len(want2) || !strings.HasPrefix(got, want) || !strings.HasSuffix(mid, want2) || strings.Trim(strings.TrimSuffix(mid, want2), " #") != "" {
					t.Fail("the concatenation of %q and %q renders as %q", want, want2, got)
				}
				t.Event("concatenation rendered", 1)
			} else if must2 {
				t.Fail("rendering a concatenation fails: %v", err)
			}
			t.input = in
		}
		if len(x.parts) > 1 {
			t.Distinct(t.input)
			t.Sample(t.input)
		}
		return
	}
	d := g.docN(1 + t.R.IntN(4))
	d.emit(randLayout(t.R))
	mode := mStrings
	if t.R.IntN(8) == 0 && newGen(t.R, true) != nil {
		g2 := newGen(t.R, true)
		d = g2.docN(1 + t.R.IntN(2))
		d.emit(randLayout(t.R))
		mode = 0
	}
	f := t.mustParse(d.src, mode)
	ref := t.mustParse(d.src, mode)
	if t.R.IntN(4) == 0 { // a value that stands in several tags
		var items []*mItem
		for _, dc := range d.decls {
			for _, it := range dc.items {
				if it.val != nil {
					items = append(items, it)
				}
			}
		}
		tags, refs := valueTags(f), valueTags(ref)
		if len(tags) != len(items) {
			t.Fail("%d tags, want %d", len(tags), len(items))
		}
		for k := 1 + t.R.IntN(3); k > 0 && len(items) > 1; k-- {
			i, j := t.R.IntN(len(items)), t.R.IntN(len(items))
			if !strings.EqualFold(items[i].name, "url") && !strings.EqualFold(items[j].name, "url") {
				tags[j].Value, refs[j].Value, items[j].val = tags[i].Value, refs[i].Value, items[i].val
				t.Event("value in several tags", 1)
			}
		}
	}
	renameTags(t, f, ref)
	if t.R.IntN(6) == 0 {
		scatterSame(t, f, ref)
	}
	res := bibtex.NewRenderParsedTextResolver()
	t.Guard(len(d.src))
	err := res.Resolve(f)
	t.Done()
	t.Eval()
	// Tags of the model in the order of the tree.
	must := true
	failed := false
	for i, dc := range d.decls {
		var items []*mItem
		var tags, refs []*ast.TagStmt
		for _, it := range dc.items {
			if it.val != nil {
				items = append(items, it)
			}
		}
		switch x := f.Entries[i].(type) {
		case *ast.AbbrevDecl:
			tags, refs = []*ast.TagStmt{x.Tag}, []*ast.TagStmt{ref.Entries[i].(*ast.AbbrevDecl).Tag}
			t.Event("abbreviation tag", 1)
		case *ast.BibDecl:
			tags, refs = x.Tags, ref.Entries[i].(*ast.BibDecl).Tags
		}
		for j, it := range items {
			o := dumpOpt{strings: mode != 0, pos: true}
			before, after := dumpExpr(refs[j].Value, 1, o), dumpExpr(tags[j].Value, 1, o)
			if _, ok := refs[j].Value.(*ast.ParsedText); !ok {
				if before != after {
					t.Fail("the value of tag %q, which isn't a parsed string, changes\n%s", it.name, diff(before, after))
				}
				t.Event("tag left alone", 1)
				continue
			}
			want, m, can := plain(it.val.parts)
			must = must && m
			txt, ok := tags[j].Value.(*ast.Text)
			switch {
			case ok && !can:
				t.Fail("tag %q has no plain text but becomes %q", it.name, txt.Value)
			case ok && txt.Value != want:
				t.Fail("tag %q becomes %q, want %q", it.name, txt.Value, want)
			case ok:
				t.Event("tag replaced", 1)
			case err == nil:
				t.Fail("tag %q is not replaced: %T", it.name, tags[j].Value)
			case before != after:
				t.Fail("tag %q is neither replaced nor left as it was\n%s", it.name, diff(before, after))
			case m && !failed && mustBefore(d, i, j):
				t.Fail("tag %q, before the one that fails, is not replaced", it.name)
			}
			if !m {
				failed = true
			}
			// Put the old value back for the comparison of the rest.
			if ok {
				refs[j].Value = txt
			}
		}
	}
	if a, b := fullDump(ref, mode != 0), fullDump(f, mode != 0); a != b {
		t.Fail("rendering changes more than the values of string tags\n%s", diff(a, b))
	}
	if err != nil && must {
		t.Fail("rendering fails: %v", err)
	}
	t.Event("document rendered", 1)
	if err == nil {
		before := fullDump(f, mode != 0)
		if err := res.Resolve(f); err != nil {
			t.Fail("rendering again fails: %v", err)
		}
		if after := fullDump(f, mode != 0); before != after {
			t.Fail("rendering again changes the tree\n%s", diff(before, after))
		}
		t.Event("idempotent", 1)
	} else {
		t.Event("rendering refused", 1)
	}
	t.Distinct(d.src)
}

// mustBefore is about the first failing tag in walk order only.
func mustBefore(d *mDoc, i, j int) bool {
	for a, dc := range d.decls {
		n := 0
		for _, it := range dc.items {
			if it.val == nil {
				continue
			}
			if a > i || a == i && n >= j {
				return true
			}
			if it.val.kind == 'l' {
				if _, m, _ := plain(it.val.parts); !m {
					return false
				}
			}
			n++
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// C17

// randTree makes a tree to walk. A node may stand at several places of it, as
// in a tree whose abbreviations were replaced by their values.
func randTree(t *T) ast.Node {
	root := plainTree(t)
	if t.R.IntN(5) == 0 {
		shareNodes(t, root)
	}
	return root
}

// shareNodes puts nodes of a tree at further places of it, without a cycle.
func shareNodes(t *T, root ast.Node) {
	var ns []ast.Node
	var tags []*ast.TagStmt
	var bibs []*ast.BibDecl
	var collect func(n ast.Node)
	collect = func(n ast.Node) {
		ns = append(ns, n)
		switch x := n.(type) {
		case *ast.TagStmt:
			tags = append(tags, x)
		case *ast.BibDecl:
			bibs = append(bibs, x)
		}
		for _, c := range childNodes(n) {
			collect(c)
		}
	}
	collect(root)
	if len(ns) > 3000 {
		return
	}
	for k := 1 + t.R.IntN(3); k > 0; k-- {
		switch x := pick(t.R, ns).(type) {
		case *ast.ParsedText:
			if len(x.Values) > 0 {
				x.Values = append(x.Values, pick(t.R, x.Values))
				t.Event("shared node", 1)
			}
		case *ast.TextMacro:
			if len(x.Values) > 0 {
				x.Values = append(x.Values, pick(t.R, x.Values))
				t.Event("shared node", 1)
			}
		case *ast.ConcatExpr:
			x.Y = x.X
			t.Event("shared node", 1)
		case *ast.File:
			if len(x.Entries) > 0 {
				x.Entries = append(x.Entries, pick(t.R, x.Entries))
				t.Event("shared node", 1)
			}
		default:
			if len(tags) > 1 {
				pick(t.R, tags).Value = pick(t.R, tags).Value
				t.Event("shared node", 1)
			}
			if len(tags) > 0 && len(bibs) > 0 && t.R.IntN(2) == 0 {
				b := pick(t.R, bibs)
				b.Tags = append(b.Tags, pick(t.R, tags))
				t.Event("shared node", 1)
			}
		}
	}
}

// valueTags are the tags of a file in order.
func valueTags(f *ast.File) []*ast.TagStmt {
	var out []*ast.TagStmt
	for _, e := range f.Entries {
		switch x := e.(type) {
		case *ast.AbbrevDecl:
			out = append(out, x.Tag)
		case *ast.BibDecl:
			out = append(out, x.Tags...)
		}
	}
	return out
}

// renameTags gives some tags of two equal trees other names, which mean nothing
// to a resolver of values.
func renameTags(t *T, f, ref *ast.File) {
	if t.R.IntN(5) > 0 {
		return
	}
	refs := valueTags(ref)
	for i, tag := range valueTags(f) {
		if t.R.IntN(2) == 0 {
			tag.Name = pick(t.R, []string{"", "author", "url", "é", "x", anyWord(t, t.R.IntN(2) == 0), dictWord(t.R)})
			refs[i].Name = tag.Name
		}
		if t.R.IntN(2) == 0 {
			tag.RawName = pick(t.R, []string{"", "Author", "URL", "é", tag.Name, anyWord(t, t.R.IntN(2) == 0)})
			refs[i].RawName = tag.RawName
		}
	}
	t.Event("tags renamed", 1)
}

func plainTree(t *T) ast.Node {
	g := newGen(t.R, false)
	g.okAcc = true
	g.noURL = false
	switch t.R.IntN(8) {
	case 0, 1: // author lists
		d := g.docN(1 + t.R.IntN(2))
		dc := &mDecl{kind: 'b', typ: "book", items: []*mItem{{name: "author", val: namesLiteral(t, false)}, {name: "editor", val: namesLiteral(t, false)}}}
		d.decls = append(d.decls, dc)
		d.emit(&layout{r: t.R, nl: "\n", style: 1})
		f := t.mustParse(d.src, mStrings)
		bib := f.Entries[len(f.Entries)-1].(*ast.BibDecl)
		if err := bibtex.NewAuthorResolver("author", "editor").Resolve(bib); err != nil {
			t.Fail("author resolver: %v", err)
		}
		if t.R.IntN(2) == 0 {
			return f
		}
		return bib
	case 2:
		p := &ast.Package{Files: map[string]*ast.File{}}
		for n := t.R.IntN(tail(t.R, 5, 30)); n >= 0; n-- {
			d := g.docN(t.R.IntN(3))
			d.emit(randLayout(t.R))
			name := fmt.Sprintf("f%d.bib", t.R.IntN(100))
			if t.R.IntN(3) == 0 {
				name = fileName(t.R)
			}
			p.Files[name] = t.mustParse(d.src, mStrings)
		}
		return p
	case 3:
		t.Event("hand-made tree", 1)
		n := handMade(t, 3).(ast.Node)
		if t.R.IntN(2) == 0 {
			scatter(t, n)
		}
		return n
	case 4:
		return t.parseLiteral(g.literal())
	default:
		d := g.docN(1 + t.R.IntN(4))
		d.emit(randLayout(t.R))
		mode := mStrings
		if t.R.IntN(6) == 0 {
			g2 := newGen(t.R, true)
			d = g2.docN(2)
			d.emit(randLayout(t.R))
			mode = 0
		}
		return t.mustParse(d.src, mode)
	}
}

func handExpr(t *T, depth int) ast.Expr {
	r := t.R
	if depth > 0 {
		switch r.IntN(5) {
		case 0:
			x := &ast.ParsedText{Delim: ast.TextDelimiter(r.IntN(2))}
			for n := r.IntN(tail(r, 4, 40)); n > 0; n-- {
				x.Values = append(x.Values, handExpr(t, depth-1))
			}
			return x
		case 1:
			return &ast.ConcatExpr{X: handExpr(t, depth-1), Y: handExpr(t, depth-1)}
		case 2:
			x := &ast.TextMacro{Name: pick(r, []string{"m", "emph", "url", "aa", "ss", "LaTeX", "href", ",", "", "\u00e9", strings.Repeat("name", 12)})}
			for n := r.IntN(tail(r, 4, 40)); n > 0; n-- {
				x.Values = append(x.Values, handExpr(t, depth-1))
			}
			return x
		case 3:
			var as ast.Authors
			for n := r.IntN(3); n > 0; n-- {
				a := &ast.Author{}
				for _, p := range []*ast.Expr{&a.First, &a.Prefix, &a.Last, &a.Suffix} {
					if r.IntN(3) > 0 {
						*p = handExpr(t, 0)
					} else {
						t.Event("author with missing parts", 1)
					}
				}
				as = append(as, a)
			}
			return as
		}
	}
	word := pick(r, []string{"x", "x", "", "été", "\u4e2d\u6587", "-", "a b", " ", "x\ny", strings.Repeat("long ", 20), "{", "%"})
	return pick(r, []ast.Expr{&ast.Text{Value: word}, &ast.TextSpace{Value: pick(r, []string{"", "", " ", "  ", "\n", "\t ", "\r\n", strings.Repeat(" ", 30)})}, &ast.TextComma{}, &ast.TextNBSP{}, &ast.TextHyphen{}, &ast.TextMath{Value: "y"}, &ast.TextEscaped{Value: "&"},
		&ast.Number{Value: "1"}, &ast.Ident{Name: pick(r, []string{"i", word})}, &ast.UnparsedText{Type: token.String, Value: word}, &ast.TextAccent{Accent: '\'', Text: &ast.Text{Value: "o"}}, &ast.BadExpr{}})
}

func handMade(t *T, depth int) interface{} {
	r := t.R
	f := &ast.File{Name: "hand.bib"}
	for n := r.IntN(4); n >= 0; n-- {
		switch r.IntN(4) {
		case 0:
			f.Entries = append(f.Entries, &ast.AbbrevDecl{Tag: &ast.TagStmt{Name: "a", RawName: pick(r, []string{"a", "A", "é", ""}), Value: handExpr(t, depth)}})
		case 1:
			f.Entries = append(f.Entries, &ast.PreambleDecl{Text: handExpr(t, depth)})
		case 2:
			f.Entries = append(f.Entries, &ast.BadDecl{})
		default:
			b := &ast.BibDecl{Type: "book", Key: &ast.Ident{Name: "k"}}
			for m := r.IntN(tail(r, 4, 40)); m > 0; m-- {
				b.Tags = append(b.Tags, &ast.TagStmt{Name: fmt.Sprint("t", m), RawName: pick(r, []string{"T1", "été", "t1", ""}), Value: handExpr(t, depth)})
			}
			f.Entries = append(f.Entries, b)
		}
	}
	switch r.IntN(3) {
	case 0:
		p := &ast.Package{Files: map[string]*ast.File{"z": f, "a": {Name: "a"}}}
		return p
	case 1:
		return handExpr(t, depth).(ast.Node)
	}
	return f
}

// scatter gives the nodes of a tree arbitrary positions and depths, which no
// walk and no rendering looks at.
func scatter(t *T, root ast.Node) {
	scatterWith(t.R, root, true)
	t.Event("positions scattered", 1)
}

// scatterSame does the same to equal trees.
func scatterSame(t *T, roots ...ast.Node) {
	seed := t.R.Uint64()
	for _, root := range roots {
		scatterWith(rand.New(rand.NewPCG(seed, 1)), root, true)
	}
	t.Event("positions scattered", 1)
}

func scatterWith(r *rand.Rand, root ast.Node, depths bool) {
	most := pick(r, []int{1, 8, 60, 1 << 20})
	eachNode(root, func(n ast.Node) {
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Pointer {
			return
		}
		v = v.Elem()
		for i := range v.NumField() {
			f := v.Field(i)
			if f.Type() == reflect.TypeFor[gotok.Pos]() && r.IntN(3) > 0 {
				f.SetInt(int64(r.IntN(most)))
			} else if depths && v.Type().Field(i).Name == "Depth" && r.IntN(3) == 0 {
				f.SetInt(int64(r.IntN(most)))
			}
		}
	})
}

type visit struct {
	n     ast.Node
	enter bool
}

// idle are options of an instance that have nothing to do with what it is used
// for: resolvers and a parser mode for one that renders, renderers for one that
// resolves, both for one that parses.
func idle(t *T, use string) []bibtex.Option {
	r := t.R
	n := pick(r, []int{0, 0, 1, 2, 5, 12})
	if r.IntN(40) == 0 {
		n = 30 + r.IntN(70)
	}
	var out []bibtex.Option
	for ; n > 0; n-- {
		switch k := r.IntN(3); {
		case k == 0 && use != "parse":
			out = append(out, bibtex.WithParserMode(parser.Mode(r.IntN(32))&^parser.Trace))
		case k == 1 && use != "resolve":
			var rs []bibtex.Resolver
			for m := r.IntN(4); m > 0; m-- {
				rs = append(rs, bibtex.ResolverFunc(func(ast.Node) error {
					t.Fail("to %s calls a resolver", use)
					return errRead
				}))
			}
			out = append(out, bibtex.WithResolvers(rs...))
		case use != "render":
			out = append(out, bibtex.WithRenderer(pick(r, allKinds()), func(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
				t.Fail("to %s calls a renderer", use)
				return ast.WalkStop, errRead
			}))
		}
	}
	if len(out) > 0 {
		t.Event("options of other parts", 1)
	}
	return out
}

// merge mixes two lists of options, each in its order.
func merge(t *T, a, b []bibtex.Option) []bibtex.Option {
	var out []bibtex.Option
	for len(a)+len(b) > 0 {
		if t.R.IntN(len(a)+len(b)) < len(a) {
			out, a = append(out, a[0]), a[1:]
		} else {
			out, b = append(out, b[0]), b[1:]
		}
	}
	return out
}

// nodeID identifies a node; lists of authors have no identity.
func nodeID(n ast.Node) interface{} {
	if as, ok := n.(ast.Authors); ok {
		if len(as) == 0 {
			return "empty authors"
		}
		return &as[0]
	}
	return n
}

// reference computes the visits of a walk whose visitor skips the nodes in skip
// and makes no call after the event last (-1: none).
func reference(n ast.Node, skip func(i int, n ast.Node) bool) []visit {
	var out []visit
	var rec func(n ast.Node)
	rec = func(n ast.Node) {
		i := len(out)
		out = append(out, visit{n, true})
		if !skip(i, n) {
			for _, c := range childNodes(n) {
				rec(c)
			}
		}
		out = append(out, visit{n, false})
	}
	rec(n)
	return out
}

func describeVisits(vs []visit) string {
	var b strings.Builder
	for _, v := range vs {
		if v.enter {
			fmt.Fprintf(&b, "+%s ", v.n.Kind())
		} else {
			fmt.Fprintf(&b, "-%s ", v.n.Kind())
		}
	}
	return b.String()
}

func sameVisits(a, b []visit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].enter != b[i].enter || nodeID(a[i].n) != nodeID(b[i].n) {
			return false
		}
	}
	return true
}

func runC17(t *T) {
	root := randTree(t)
	seed := t.R.Uint64()
	skipRate := pick(t.R, []uint64{0, 0, 4, 2})
	skip := func(i int, n ast.Node) bool {
		return skipRate > 0 && (seed>>(uint(i)%61))%skipRate == 0
	}
	full := reference(root, skip)
	for _, v := range full {
		if v.enter {
			t.Event("node "+v.n.Kind().String(), 1)
		}
	}
	run := func(at int, st ast.WalkStatus, fail error) {
		var got []visit
		t.Guard(len(full) + 100)
		err := ast.Walk(root, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
			i := len(got)
			got = append(got, visit{n, enter})
			if len(got) > len(full)+10 {
				return ast.WalkStop, nil
			}
			if i == at {
				return st, fail
			}
			if enter && skip(i, n) {
				return ast.WalkSkipChildren, nil
			}
			if !enter && i%3 == 0 {
				return ast.WalkSkipChildren, nil // nothing left to skip
			}
			return ast.WalkContinue, nil
		})
		t.Eval()
		want := full
		if at >= 0 {
			want = full[:at+1]
		}
		if !sameVisits(got, want) {
			t.Fail("walk with status %d and error %v at event %d, skipping with %d: calls\n%s\nwant\n%s", st, fail, at, skipRate, describeVisits(got), describeVisits(want))
		}
		if err != fail {
			t.Fail("walk with status %d and error %v at event %d returns the error %v", st, fail, at, err)
		}
	}
	run(-1, 0, nil)
	t.Event("full walk", 1)
	if skipRate > 0 {
		t.Event("skipped", 1)
	}
	if t.R.IntN(4) == 0 && len(full) <= 2000 {
		nestedWalks(t, root, full, skip)
	}
	if t.R.IntN(4) == 0 {
		defer changingWalk(t, root)
	}
	points := []int{t.R.IntN(len(full)), t.R.IntN(len(full)), len(full) - 1, 0}
	if len(full) <= 60 {
		points = points[:0]
		for i := range full {
			points = append(points, i)
		}
	}
	for _, at := range points {
		run(at, ast.WalkStop, nil)
		t.Event("stopped", 1)
		run(at, ast.WalkContinue, anyFault(t.R))
		run(at, ast.WalkSkipChildren, anyFault(t.R))
		t.Event("failed", 1)
		run(at, ast.WalkStop, anyFault(t.R))
		t.Event("failed with stop status", 1)
	}
	if len(full) >= 10 {
		t.Distinct(describeVisits(full) + fmt.Sprint(skipRate))
		t.Sample(describeVisits(full))
	}
}

// nestedWalks walks a tree with a visitor that, at some events, walks another
// part of the same tree: each walk makes its own calls and has its own result.
func nestedWalks(t *T, root ast.Node, full []visit, skip func(i int, n ast.Node) bool) {
	every := 1 + t.R.IntN(len(full)/4+1)
	budget := 4*len(full) + 200
	seed := t.R.Uint64()
	fault := anyFault(t.R)
	t.Guard(8*len(full) + 1000)
	var got []visit
	err := ast.Walk(root, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
		i := len(got)
		got = append(got, visit{n, enter})
		if len(got) > len(full)+10 {
			return ast.WalkStop, nil
		}
		if i%every == 0 && budget > 0 {
			sub := full[int((seed>>(uint(i)%59))%uint64(len(full)))].n
			want := reference(sub, func(int, ast.Node) bool { return false })
			budget -= len(want)
			stop := -1
			var fail error
			if i%2 == 0 { // the walk inside ends before its time
				stop = int(seed % uint64(len(want)))
				want = want[:stop+1]
				if i%4 == 0 {
					fail = fault
				}
			}
			var in []visit
			err := ast.Walk(sub, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
				in = append(in, visit{n, enter})
				if len(in) == stop+1 || len(in) > len(want)+10 {
					return ast.WalkStop, fail
				}
				return ast.WalkContinue, nil
			})
			if !sameVisits(in, want) || err != fail {
				t.Fail("a walk inside a walk, stopped at %d with %v: error %v and calls\n%s\nwant\n%s", stop, fail, err, describeVisits(in), describeVisits(want))
			}
			t.Event("walk inside a walk", 1)
		}
		if enter && skip(i, n) {
			return ast.WalkSkipChildren, nil
		}
		return ast.WalkContinue, nil
	})
	t.Eval()
	if !sameVisits(got, full) || err != nil {
		t.Fail("a walk whose visitor walks parts of the tree itself: error %v and calls\n%s\nwant\n%s", err, describeVisits(got), describeVisits(full))
	}
}

// changingWalk walks a tree with a visitor that changes the contents of nodes
// when it enters them, as a resolver does: the walk goes on into what the node
// holds then.
func changingWalk(t *T, root ast.Node) {
	fresh := func() ast.Expr {
		switch t.R.IntN(4) {
		case 0:
			return &ast.Text{Value: "new"}
		case 1:
			return &ast.ParsedText{Values: []ast.Expr{&ast.Text{Value: "new"}, &ast.TextSpace{Value: " "}}}
		case 2:
			return &ast.TextMacro{Name: "new", Values: []ast.Expr{&ast.TextComma{}}}
		}
		return &ast.ConcatExpr{X: &ast.Ident{Name: "new"}, Y: &ast.ParsedText{}}
	}
	edit := func(xs []ast.Expr) []ast.Expr {
		switch t.R.IntN(5) {
		case 0:
			return nil
		case 1:
			return append(xs[:len(xs):len(xs)], fresh())
		case 2:
			return append([]ast.Expr{fresh()}, xs...)
		case 3:
			if len(xs) > 0 {
				return xs[:len(xs)-1]
			}
		}
		for i := range xs {
			if t.R.IntN(2) == 0 {
				xs[i] = fresh()
			}
		}
		return xs
	}
	made := map[interface{}]bool{} // do not change a node twice
	limit := 30
	var got []visit
	var stack [][]ast.Node // the nodes to come, innermost last
	stack = append(stack, []ast.Node{root})
	t.Guard(100000)
	err := ast.Walk(root, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
		got = append(got, visit{n, enter})
		if enter {
			top := len(stack) - 1
			if len(stack[top]) == 0 || nodeID(stack[top][0]) != nodeID(n) {
				t.Fail("a visitor that changes nodes as it enters them: %s visited; expected %s\ncalls %s", n.Kind(), describeNext(stack), describeVisits(got))
			}
			stack[top] = stack[top][1:]
			if limit > 0 && !made[nodeID(n)] && t.R.IntN(3) == 0 {
				limit--
				made[nodeID(n)] = true
				switch x := n.(type) {
				case *ast.ParsedText:
					x.Values = edit(x.Values)
					t.Event("contents changed on entering", 1)
				case *ast.TextMacro:
					x.Values = edit(x.Values)
					t.Event("contents changed on entering", 1)
				case *ast.TagStmt:
					if _, ok := x.Value.(ast.Authors); !ok {
						x.Value = fresh()
					}
				case *ast.ConcatExpr:
					x.X, x.Y = fresh(), x.X
				case *ast.PreambleDecl:
					x.Text = fresh()
				case *ast.BibDecl:
					if k := len(x.Tags); k > 0 {
						x.Tags = x.Tags[:k-1]
					}
				case *ast.File:
					x.Entries = append(x.Entries[:len(x.Entries):len(x.Entries)], &ast.BibDecl{Type: "new"})
				}
			}
			stack = append(stack, childNodes(n))
			return ast.WalkContinue, nil
		}
		top := len(stack) - 1
		if len(stack[top]) != 0 {
			t.Fail("a visitor that changes nodes as it enters them: %s left; expected %s\ncalls %s", n.Kind(), describeNext(stack), describeVisits(got))
		}
		stack = stack[:top]
		return ast.WalkContinue, nil
	})
	t.Eval()
	if err != nil || len(stack) != 1 || len(stack[0]) != 0 {
		t.Fail("a visitor that changes nodes as it enters them: error %v, %s never visited", err, describeNext(stack))
	}
}

func describeNext(stack [][]ast.Node) string {
	if top := stack[len(stack)-1]; len(top) > 0 {
		return fmt.Sprintf("%s", top[0].Kind())
	}
	return "the end of the node"
}

// ---------------------------------------------------------------------------
// C18

func allKinds() []ast.NodeKind {
	var ks []ast.NodeKind
	for k := ast.KindTexComment; k <= ast.KindPackage; k++ {
		ks = append(ks, k)
	}
	return ks
}

// checkKind decides whether a node's kind is the one of its type.
func checkKind(t *T, n ast.Node) {
	want := ast.NodeKind(-1)
	switch n.(type) {
	case *ast.TexComment:
		want = ast.KindTexComment
	case *ast.TexCommentGroup:
		want = ast.KindTexCommentGroup
	case *ast.BadExpr:
		want = ast.KindBadExpr
	case *ast.Ident:
		want = ast.KindIdent
	case *ast.Number:
		want = ast.KindNumber
	case ast.Authors:
		want = ast.KindAuthors
	case *ast.Author:
		want = ast.KindAuthor
	case *ast.UnparsedText:
		want = ast.KindUnparsedText
	case *ast.ParsedText:
		want = ast.KindParsedText
	case *ast.Text, *ast.TextAccent: // accents have no kind of their own
		want = ast.KindText
	case *ast.TextComma:
		want = ast.KindTextComma
	case *ast.TextEscaped:
		want = ast.KindTextEscaped
	case *ast.TextHyphen:
		want = ast.KindTextHyphen
	case *ast.TextMath:
		want = ast.KindTextMath
	case *ast.TextNBSP:
		want = ast.KindTextNBSP
	case *ast.TextSpace:
		want = ast.KindTextSpace
	case *ast.TextMacro:
		want = ast.KindTextMacro
	case *ast.ConcatExpr:
		want = ast.KindConcatExpr
	case *ast.BadStmt:
		want = ast.KindBadStmt
	case *ast.TagStmt:
		want = ast.KindTagStmt
	case *ast.BadDecl:
		want = ast.KindBadDecl
	case *ast.AbbrevDecl:
		want = ast.KindAbbrevDecl
	case *ast.BibDecl:
		want = ast.KindBibDecl
	case *ast.PreambleDecl:
		want = ast.KindPreambleDecl
	case *ast.File:
		want = ast.KindFile
	case *ast.Package:
		want = ast.KindPackage
	default:
		return
	}
	if n.Kind() != want {
		t.Fail("a %T is of kind %d (%s), want %d", n, int(n.Kind()), n.Kind(), int(want))
	}
	name := strings.TrimPrefix(strings.TrimPrefix(fmt.Sprintf("%T", n), "*"), "ast.")
	if _, ok := n.(*ast.TextAccent); !ok && n.Kind().String() != name {
		t.Fail("the kind of a %s is named %q", name, n.Kind().String())
	}
	t.Event("kind of a node", 1)
}

func runC18(t *T) {
	if t.R.IntN(2) == 0 {
		g := newGen(t.R, false)
		g.noMacro = true
		x := g.literal()
		v := t.parseLiteral(x)
		t.Guard(len(t.input))
		var w strings.Builder
		if err := bibtex.New(idle(t, "render")...).Render(&w, v); err != nil {
			t.Fail("rendering fails: %v", err)
		}
		t.Eval()
		out := w.String()
		if model, ok := defaultOutput(reference(v, func(int, ast.Node) bool { return false })); !ok {
			t.Fail("a literal without macros has parts that can't be written")
		} else if out != model {
			t.Fail("renders as\n%s", diff(model, out))
		}
		back, err := t.parseExpr(out)
		if err != nil {
			t.Fail("renders as %q, which is not a literal: %v", out, err)
		}
		// A non-breaking space may become an ordinary one.
		norm := func(x ast.Expr) string {
			s := strings.ReplaceAll(dumpExpr(x, 1, dumpOpt{strings: true}), " nbsp", " space")
			for strings.Contains(s, " space space") {
				s = strings.ReplaceAll(s, " space space", " space")
			}
			return s
		}
		if a, b := norm(v), norm(back); a != b {
			t.Fail("renders as %q, which means something else\n%s", out, diff(a, b))
		}
		t.Event("literal round trip", 1)
		for _, p := range x.parts {
			if p.kind == '\'' {
				t.Event("round trip with accent", 1)
				break
			}
		}
		if x.quote {
			t.Event("round trip with quotes", 1)
		}
		if len(x.parts) > 1 {
			t.Distinct(t.input)
			t.Sample(t.input)
		}
		return
	}
	root := randTree(t)
	full := reference(root, func(int, ast.Node) bool { return false })
	for _, v := range full {
		checkKind(t, v.n)
	}
	// Every kind observed.
	var got []visit
	var opts []bibtex.Option
	var want bytes.Buffer
	at, behave := -1, 0
	errVisit := anyFault(t.R)
	failStatus := pick(t.R, []ast.WalkStatus{ast.WalkStop, ast.WalkContinue, ast.WalkSkipChildren})
	skipped := map[int]bool{}
	var buf bytes.Buffer
	badWriter := false
	for _, k := range allKinds() {
		opts = append(opts, bibtex.WithRenderer(k, func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
			i := len(got)
			got = append(got, visit{n, enter})
			if n.Kind() != k {
				t.Fail("the renderer of %s receives a %s", k, n.Kind())
			}
			if w != io.Writer(&buf) {
				badWriter = true
			}
			if i > len(full)+10 {
				return ast.WalkStop, nil
			}
			if i == at {
				switch behave {
				case 1:
					return ast.WalkStop, nil
				case 2:
					return failStatus, errVisit
				case 3:
					skipped[i] = true
					return ast.WalkSkipChildren, nil
				}
			}
			return ast.WalkContinue, nil
		}))
	}
	b := bibtex.New(merge(t, opts, idle(t, "render"))...)
	try := func(a, how int) {
		at, behave = a, how
		got = nil
		t.Guard(len(full) + 100)
		err := b.Render(&buf, root)
		t.Eval()
		t.Event("renderer call", len(got))
		ref := full
		switch how {
		case 1, 2:
			ref = full[:a+1]
		case 3: // on leaving, nothing is left to skip
			ref = reference(root, func(i int, _ ast.Node) bool { return i == a && full[a].enter })
		}
		if !sameVisits(got, ref) {
			t.Fail("behaviour %d at call %d: renderer calls\n%s\nwant\n%s", how, a, describeVisits(got), describeVisits(ref))
		}
		if badWriter {
			t.Fail("a renderer receives another writer")
		}
		if how == 2 {
			if !errors.Is(err, errVisit) {
				t.Fail("a renderer failed but rendering returns %v", err)
			}
		} else if err != nil {
			t.Fail("rendering fails: %v", err)
		}
	}
	try(-1, 0)
	a := t.R.IntN(len(full))
	try(a, 1)
	t.Event("renderer stopped", 1)
	try(a, 2)
	t.Event("renderer failed", 1)
	try(t.R.IntN(len(full)), 3)
	for full[a].enter == false {
		a = t.R.IntN(len(full))
	}
	try(a, 3)
	t.Event("renderer skipped", 1)

	// One kind replaced, and another instance.
	defs := render.Defaults()
	kind := full[t.R.IntN(len(full))].n.Kind()
	marker := func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
		fmt.Fprintf(w, "<%v %v>", n.Kind(), enter)
		return ast.WalkContinue, nil
	}
	expect := func(repl bool) (string, bool) {
		want.Reset()
		for _, v := range full {
			r := defs[v.n.Kind()]
			if repl && v.n.Kind() == kind {
				r = render.NodeRendererFunc(marker)
			}
			st, err := r.Render(&want, v.n, v.enter)
			if err != nil || st == ast.WalkStop {
				return want.String(), false
			}
		}
		return want.String(), true
	}
	opts = nil
	for n := t.R.IntN(4); n > 0; n-- { // replaced by what follows
		opts = append(opts, bibtex.WithRenderer(kind, func(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
			t.Fail("a renderer of %s that was replaced is called", kind)
			return ast.WalkStop, nil
		}))
	}
	one := bibtex.New(merge(t, append(opts, bibtex.WithRenderer(kind, marker)), idle(t, "render"))...)
	other := bibtex.New(idle(t, "render")...)
	for i, inst := range []*bibtex.Biber{one, other} {
		var out bytes.Buffer
		t.Guard(len(full) + 100)
		err := inst.Render(&out, root)
		t.Eval()
		w, ok := expect(i == 0)
		if ok != (err == nil) {
			t.Fail("rendering returns %v; the renderers succeed: %v", err, ok)
		}
		if out.String() != w {
			t.Fail("instance %d (0: %s replaced): output\n%s", i, kind, diff(w, out.String()))
		}
		if model, ok := defaultOutput(full); ok && i == 1 {
			if out.String() != model {
				t.Fail("output of the default renderers\n%s", diff(model, out.String()))
			}
			t.Event("default output of a tree", 1)
		}
	}
	t.Event("one kind replaced", 1)
	t.Event("other instance unchanged", 1)
	if t.R.IntN(4) == 0 && len(full) <= 2000 {
		nestedRendering(t, root, full)
	}
	if len(full) >= 10 {
		t.Distinct(describeVisits(full))
	}
}

// nestedRendering renders a tree with an instance one of whose renderers uses
// that instance to render a node, as one does to change the case of a title.
func nestedRendering(t *T, root ast.Node, full []visit) {
	defs := render.Defaults()
	kind := full[t.R.IntN(len(full))].n.Kind()
	budget := 3*len(full) + 100
	var b *bibtex.Biber
	inside := 0
	sub := full[t.R.IntN(len(full))].n
	same := t.R.IntN(2) == 0
	nested := func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
		if inside > 0 || !enter || budget <= 0 {
			return defs[kind].Render(w, n, enter)
		}
		at := sub
		if same {
			at = n
		}
		vs := reference(at, func(int, ast.Node) bool { return false })
		budget -= len(vs)
		want, ok := defaultOutput(vs)
		if !ok {
			budget = 0
			return defs[kind].Render(w, n, enter)
		}
		var buf bytes.Buffer
		inside++
		err := b.Render(&buf, at)
		inside--
		if err != nil || buf.String() != want {
			t.Fail("rendering inside a renderer of %s: error %v\n%s", kind, err, diff(want, buf.String()))
		}
		t.Event("rendered inside a renderer", 1)
		return defs[kind].Render(w, n, enter)
	}
	b = bibtex.New(bibtex.WithRenderer(kind, nested))
	model, ok := defaultOutput(full)
	t.Guard(10*len(full) + 1000)
	var out bytes.Buffer
	err := b.Render(&out, root)
	t.Eval()
	if ok && (err != nil || out.String() != model) {
		t.Fail("rendering with a renderer of %s that renders nodes itself: error %v\n%s", kind, err, diff(model, out.String()))
	}
}

// defaultOutput returns what the default renderers must write for the visits of
// a walk: keys, names and the parts of literals, each once. It is false if there
// is something among them whose default output isn't specified.
func defaultOutput(visits []visit) (string, bool) {
	var b strings.Builder
	for _, v := range visits {
		switch x := v.n.(type) {
		case *ast.Ident:
			if v.enter {
				b.WriteString(x.Name)
			}
		case *ast.ParsedText:
			switch {
			case x.Delim == ast.QuoteDelimiter:
				b.WriteByte('"')
			case v.enter:
				b.WriteByte('{')
			default:
				b.WriteByte('}')
			}
		case *ast.Text:
			if v.enter {
				b.WriteString(x.Value)
			}
		case *ast.TextAccent:
			if v.enter {
				b.WriteString(`\` + string(rune(x.Accent)) + "{" + x.Text.Value + "}")
			}
		case *ast.TextComma:
			if v.enter {
				b.WriteByte(',')
			}
		case *ast.TextEscaped:
			if v.enter {
				b.WriteString(`\` + x.Value)
			}
		case *ast.TextHyphen:
			if v.enter {
				b.WriteByte('-')
			}
		case *ast.TextMath:
			b.WriteByte('$')
			if v.enter {
				b.WriteString(x.Value)
			}
		case *ast.TextNBSP:
			if v.enter {
				b.WriteByte(' ')
			}
		case *ast.TextSpace:
			if v.enter {
				b.WriteString(cmp.Or(x.Value, " "))
			}
		case *ast.TextMacro, *ast.ConcatExpr, *ast.TagStmt, *ast.AbbrevDecl, *ast.BibDecl, *ast.PreambleDecl, *ast.File, *ast.Package:
		default:
			return "", false
		}
	}
	return b.String(), true
}

// ---------------------------------------------------------------------------
// C19

type faultWriter struct {
	n, at   int // fails at write number at
	partial int // a failing write writes 0: nothing, 1: half, 2: everything
	err     error
	got     []byte
	after   int
	failed  bool
}

// textFaultWriter also has the optional methods of a writer.
type textFaultWriter struct{ faultWriter }

func (f *textFaultWriter) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *textFaultWriter) WriteByte(c byte) error {
	_, err := f.Write([]byte{c})
	return err
}

func (f *textFaultWriter) WriteRune(c rune) (int, error) { return f.Write([]byte(string(c))) }

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.failed {
		f.after++
		return 0, f.err
	}
	if f.n == f.at {
		f.failed = true
		k := 0
		switch f.partial {
		case 1:
			k = len(p) / 2
		case 2:
			k = len(p)
		}
		f.got = append(f.got, p[:k]...)
		return k, f.err
	}
	f.n++
	f.got = append(f.got, p...)
	return len(p), nil
}

// textTree is a value with plain text and that text.
func textTree(t *T, g *gen, depth int) (ast.Expr, string) {
	r := t.R
	several := func() (xs []ast.Expr, s string) {
		for n := r.IntN(tail(r, 4, 30)); n > 0; n-- {
			x, w := textTree(t, g, depth-1)
			xs, s = append(xs, x), s+w
		}
		return
	}
	if depth > 0 {
		switch r.IntN(5) {
		case 0, 1:
			x, a := textTree(t, g, depth-1)
			y, b := textTree(t, g, depth-1)
			return &ast.ConcatExpr{X: x, Y: y}, a + "#" + b
		case 2:
			x := &ast.TextMacro{Name: pick(r, []string{"m", "emph", "url", "aa", "ss", "LaTeX", "href", ",", "", "\u00e9", strings.Repeat("name", 12)})}
			var s string
			x.Values, s = several()
			return x, s
		case 3:
			x := &ast.ParsedText{Depth: depth, Delim: ast.TextDelimiter(r.IntN(2))}
			var s string
			x.Values, s = several()
			return x, s
		}
	}
	switch r.IntN(10) {
	case 0, 1:
		x := g.literal()
		s, _, _ := plain(x.parts)
		return t.parseLiteral(x), s
	case 2:
		return &ast.TextComma{}, ","
	case 3:
		return &ast.TextNBSP{}, " "
	case 4:
		return &ast.TextSpace{Value: pick(r, []string{"", " ", "\n "})}, " "
	case 5:
		return &ast.TextHyphen{}, "-"
	case 6:
		return &ast.TextEscaped{Value: "&"}, "&"
	case 7:
		s := pick(r, []string{"x", "", "longer^2", "xx"})
		return &ast.TextMath{Value: s}, "$" + s + "$"
	case 8:
		return &ast.TextAccent{Accent: '\'', Text: &ast.Text{Value: "o"}}, "\u00f3"
	default:
		s := pick(r, []string{"x", "", "aab", "été", "a b", strings.Repeat("long", 20)})
		return &ast.Text{Value: s}, s
	}
}

func runC19(t *T) {
	g := newGen(t.R, false)
	g.okAcc = true
	var do func(w io.Writer) error
	kind := "text fault"
	var want string
	known := false
	if t.R.IntN(2) == 0 {
		x := g.literal()
		v := t.parseLiteral(x)
		do = func(w io.Writer) error { return render.NewTextRenderer().Render(w, v) }
		want, _, _ = plain(x.parts)
		known = true
		switch t.R.IntN(6) {
		case 0:
			y := t.parseLiteral(g.literal())
			do = func(w io.Writer) error {
				return render.NewTextRenderer().Render(w, &ast.ConcatExpr{X: v, Y: &ast.ParsedText{Values: []ast.Expr{y, &ast.TextHyphen{}, &ast.Text{Value: "z"}}}})
			}
			known = false
		case 1, 2: // a tree of literals, texts and macros, whose positions mean nothing
			var root ast.Expr
			root, want = textTree(t, g, 1+t.R.IntN(4))
			if t.R.IntN(3) > 0 {
				scatter(t, root)
			}
			do = func(w io.Writer) error { return render.NewTextRenderer().Render(w, root) }
			t.Event("nested text", 1)
		}
	} else {
		root := randTree(t)
		kind = "node fault"
		b := bibtex.New(idle(t, "render")...)
		do = func(w io.Writer) error { return b.Render(w, root) }
		for _, v := range reference(root, func(int, ast.Node) bool { return false }) {
			if k := v.n.Kind(); k == ast.KindBadExpr || k == ast.KindBadStmt {
				return // has no rendering
			}
		}
		// A failing renderer.
		calls, at := 0, t.R.IntN(20)
		errVisit := anyFault(t.R)
		var opts []bibtex.Option
		for i, d := range render.Defaults() {
			opts = append(opts, bibtex.WithRenderer(ast.NodeKind(i), func(w io.Writer, n ast.Node, enter bool) (ast.WalkStatus, error) {
				calls++
				if calls-1 == at {
					return pick(t.R, []ast.WalkStatus{ast.WalkStop, ast.WalkContinue, ast.WalkSkipChildren}), errVisit
				}
				return d.Render(w, n, enter)
			}))
		}
		var out, whole bytes.Buffer
		t.Guard(1 << 14)
		err := bibtex.New(merge(t, opts, idle(t, "render"))...).Render(&out, root)
		t.Eval()
		if calls > at {
			if !errors.Is(err, errVisit) {
				t.Fail("renderer call %d failed but rendering returns %v", at, err)
			}
			if calls > at+1 {
				t.Fail("renderers are called after one failed")
			}
			_ = b.Render(&whole, root)
			if !bytes.HasPrefix(whole.Bytes(), out.Bytes()) {
				t.Fail("output before the failure %q is not a prefix of %q", out.String(), whole.String())
			}
			t.Event("renderer fault", 1)
		} else if err != nil {
			t.Fail("rendering fails: %v", err)
		}
	}
	ref := &faultWriter{at: -1}
	t.Guard(1 << 14)
	if err := do(ref); err != nil {
		t.Fail("rendering fails without a fault: %v", err)
	}
	t.Eval()
	if noHash := strings.NewReplacer("#", ""); known && noHash.Replace(string(ref.got)) != noHash.Replace(want) {
		t.Fail("no error, but the output is %q instead of %q", ref.got, want)
	}
	t.Event("complete output", 1)
	writes := ref.n
	step := 1
	if writes > 80 {
		step = 1 + writes/80
	}
	errWrite := anyFault(t.R)
	methods := t.R.IntN(2) == 0
	for at := 0; at < writes; at += step {
		for partial := range 3 {
			tw := &textFaultWriter{faultWriter{at: at, partial: partial, err: errWrite}}
			w := &tw.faultWriter
			t.Guard(1 << 14)
			var err error
			if methods {
				err = do(tw)
			} else {
				err = do(w)
			}
			t.Eval()
			if !w.failed {
				t.Fail("write %d of %d never happens", at, writes)
			}
			if !errors.Is(err, errWrite) {
				t.Fail("write %d of %d fails with %v (partial %v) but rendering returns %v", at, writes, errWrite, partial, err)
			}
			if w.after > 0 {
				t.Fail("%d writes after write %d of %d failed", w.after, at, writes)
			}
			if !bytes.HasPrefix(ref.got, w.got) {
				t.Fail("output before the failure %q is not a prefix of %q", w.got, ref.got)
			}
			t.Event(kind, 1)
			if partial > 0 {
				t.Event("partial write", 1)
			}
		}
		t.Distinct(fmt.Sprintf("%s %d", ref.got, at))
	}
	if writes > 1 {
		t.Sample(fmt.Sprintf("%d writes: %q", writes, clip(string(ref.got), 300)))
	}
}

// ---------------------------------------------------------------------------
// C23

// replaceEscapes does to ref what simplifying must do to got, node by node, and
// takes the position of a new node from got.
func replaceEscapes(t *T, ref, got ast.Node, where string) {
	a, b := childNodes(ref), childNodes(got)
	if len(a) != len(b) {
		t.Fail("a %s has %d children, before %d", ref.Kind(), len(b), len(a))
	}
	for i := range a {
		if esc, ok := a[i].(*ast.TextEscaped); ok {
			t.Event("escape", 1)
			if where != "" {
				t.Event("escape in "+where, 1)
			}
			if ref.Kind() == ast.KindParsedText && ref.(*ast.ParsedText).Depth > 0 {
				t.Event("escape in a group", 1)
			}
			txt, ok := b[i].(*ast.Text)
			if !ok {
				t.Fail("an escape becomes a %s", b[i].Kind())
			}
			if txt.Value != esc.Value {
				t.Fail("the escape of %q becomes the text %q", esc.Value, txt.Value)
			}
			n := &ast.Text{ValuePos: txt.ValuePos, Value: esc.Value}
			switch p := ref.(type) {
			case *ast.ParsedText:
				p.Values[i] = n
			case *ast.TextMacro:
				p.Values[i] = n
			default:
				t.Fail("an escape in a %s", ref.Kind())
			}
			continue
		}
		w := where
		switch a[i].Kind() {
		case ast.KindAbbrevDecl:
			w = "an abbreviation"
		case ast.KindPreambleDecl:
			w = "a preamble"
		case ast.KindConcatExpr:
			w = "a concatenation"
		}
		replaceEscapes(t, a[i], b[i], w)
	}
}

func runC23(t *T) {
	g := newGen(t.R, false)
	g.okAcc = true
	d := g.docN(1 + t.R.IntN(3))
	d.emit(randLayout(t.R))
	f, ref := t.mustParse(d.src, mStrings), t.mustParse(d.src, mStrings)
	texts := func(f *ast.File) []string {
		var out []string
		for _, dc := range f.Entries {
			eachNode(dc, func(n ast.Node) {
				if x, ok := n.(*ast.ParsedText); ok && x.Depth == 0 {
					s, err := renderText(t, x, len(d.src))
					if err != nil {
						t.Fail("rendering fails: %v", err)
					}
					out = append(out, s)
				}
			})
		}
		return out
	}
	if tags, refs := valueTags(f), valueTags(ref); len(tags) > 1 && t.R.IntN(5) == 0 {
		i, j := t.R.IntN(len(tags)), t.R.IntN(len(tags))
		tags[j].Value, refs[j].Value = tags[i].Value, refs[i].Value
		t.Event("value in several tags", 1)
	}
	renameTags(t, f, ref)
	before := texts(f)
	t.Guard(len(d.src))
	if err := bibtex.SimplifyEscapedTextResolver(f); err != nil {
		t.Fail("simplifying fails: %v", err)
	}
	t.Done()
	t.Eval()
	n0 := t.st.Events["escape"]
	replaceEscapes(t, ref, f, "")
	if t.st.Events["escape"] > n0 {
		t.Distinct(d.src)
		t.Sample(d.src)
	}
	if a, b := fullDump(ref, true), fullDump(f, true); a != b {
		t.Fail("simplifying changes something else\n%s", diff(a, b))
	}
	after := texts(f)
	for i := range before {
		if i >= len(after) || before[i] != after[i] {
			t.Fail("the plain text changes from %q to %q", before[i], after[i])
		}
	}
	t.Event("text compared", len(before))
	a := fullDump(f, true)
	if err := bibtex.SimplifyEscapedTextResolver(f); err != nil {
		t.Fail("simplifying again fails: %v", err)
	}
	if b := fullDump(f, true); a != b {
		t.Fail("simplifying again changes the tree\n%s", diff(a, b))
	}
	t.Event("idempotent", 1)
}

// ---------------------------------------------------------------------------
// C24

func buildAny(t *T, s string) {
	t.Input(s)
	for _, v := range []ast.Expr{asts.ParseStringExpr(0, s), asts.ParseAny(s), asts.BraceText(0, s, s), asts.QuotedText(0, s, s), asts.Text(s), asts.Math(s), asts.Ident(s),
		asts.UnparsedText(s), asts.UnparsedBraceText(s), asts.Macro(s, s), asts.Concat(asts.Text(s), asts.BraceText(0, s)), asts.AccentedText('\'', s)} {
		if v == nil {
			t.Fail("a helper returns nil for %q", s)
		}
		_ = asts.ExprString(v)
		t.Eval()
	}
	d := &ast.BibDecl{}
	asts.WithBibKeys(s, s)(d)
	asts.WithBibKeys()(d)
	asts.WithBibType(s)(d)
	asts.WithBibTags(s, asts.Text(s))(d)
	t.Event("arbitrary strings", 1)
	// What is put together of them is there again, unchanged and in order.
	var kids []ast.Expr
	var args []interface{}
	for n := t.R.IntN(tail(t.R, 5, 40)); n > 0; n-- {
		k := asts.Text(s)
		kids, args = append(kids, k), append(args, k)
	}
	same := func(what string, got []ast.Expr) {
		if len(got) != len(kids) {
			t.Fail("%s of %d parts has %d for %q", what, len(kids), len(got), s)
		}
		for i, k := range kids {
			if got[i] != k {
				t.Fail("%s has another part %d for %q", what, i, s)
			}
		}
	}
	m := asts.Macro(s, args...)
	same("macro", m.Values)
	if m.Name != s {
		t.Fail("the macro %q is named %q", s, m.Name)
	}
	same("string in quotes", asts.QuotedTextExpr(0, kids...).Values)
	same("string in braces", asts.BraceTextExpr(0, kids...).Values)
	if x := asts.Text(s); x.Value != s {
		t.Fail("the text %q holds %q", s, x.Value)
	}
	if len(kids) == 0 {
		return
	}
	var rest []interface{}
	for i, k := range kids[1:] {
		rest = append(rest, fmt.Sprint(s, i+1), k)
	}
	d = &ast.BibDecl{}
	keys := make([]string, len(kids))
	for i := range keys {
		keys[i] = fmt.Sprint(s, i)
	}
	for _, opt := range []func(*ast.BibDecl){asts.WithBibTags(s+"0", kids[0], rest...), asts.WithBibKeys(keys...), asts.WithBibType(s)} {
		opt(d)
	}
	var vals []ast.Expr
	for i, tag := range d.Tags {
		if want := fmt.Sprint(s, i); tag.Name != want || tag.RawName != want {
			t.Fail("tag %d is named %q and %q, want %q", i, tag.Name, tag.RawName, want)
		}
		vals = append(vals, tag.Value)
	}
	same("list of tags", vals)
	if d.Type != s || d.Key == nil || d.Key.Name != keys[0] || len(d.ExtraKeys) != len(keys)-1 {
		t.Fail("the entry of type %q with %d keys has type %q, key %v and %d extra keys", s, len(keys), d.Type, d.Key, len(d.ExtraKeys))
	}
	for i, k := range d.ExtraKeys {
		if k.Name != keys[i+1] {
			t.Fail("extra key %d is named %q, want %q", i, k.Name, keys[i+1])
		}
	}
	t.Event("put together of arbitrary strings", 1)
}

// helperParts makes strings for the helpers.
func helperParts(t *T, quote bool) []string {
	r := t.R
	word := func() string {
		var b strings.Builder
		for n := 1 + r.IntN(6); n > 0; n-- {
			b.WriteByte(asciiText[r.IntN(len(asciiText))])
		}
		return b.String()
	}
	atom := func() string {
		switch r.IntN(6) {
		case 0:
			return "$" + pick(r, []string{"", "x", "x+y", "a_1", "\\alpha", "{x}"}) + "$"
		case 1:
			return "~"
		case 2:
			return ","
		case 3:
			return `\` + pick(r, []string{"foo", "LaTeX", "alpha", "ss", "xyz"})
		default:
			if r.IntN(4) == 0 {
				if w := dictFit(r, inString(asciiText)); w != "" {
					return w
				}
			}
			return word()
		}
	}
	var out []string
	for n := 1 + r.IntN(tail(r, 6, 60)); n > 0; n-- {
		var s string
		switch r.IntN(4) {
		case 0:
			s = " "
		case 1:
			var ws []string
			for m := 1 + r.IntN(tail(r, 5, 40)); m > 0; m-- {
				a := word()
				switch r.IntN(6) {
				case 0:
					a = atom()
				case 1: // groups in the group, without white space
					k := 1 + r.IntN(tail(r, 4, 30))
					a = strings.Repeat("{", k) + atom() + strings.Repeat("}", k)
				}
				ws = append(ws, a)
			}
			s = "{" + strings.Join(ws, " ") + "}"
		default:
			s = atom()
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			first := s[0]
			pw := isNameByte(p[0]) && p[0] != '$'
			if p == " " && s == " " || pw && isNameByte(first) && first != '$' || p[0] == '\\' && isNameByte(first) && first != '$' {
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

// plan is what is built by the helpers.
type plan struct {
	op   string
	s    string
	n    int
	kids []*plan
}

func randPlan(r *rand.Rand, depth int) *plan {
	p := &plan{}
	word := func() string {
		return pick(r, []string{"x", "ab", "aab", "été", "bar", "and", "a-", "x1", "longer name", strings.Repeat("name", 12), string(letters[r.IntN(len(letters))]) + string(letters[r.IntN(len(letters))])})
	}
	if depth > 0 && r.IntN(2) == 0 {
		p.op = pick(r, []string{"quote", "brace", "concat", "macro", "macro"})
		n := r.IntN(tail(r, 4, 12))
		switch p.op {
		case "concat":
			n = 2
		case "macro":
			p.s = strings.ReplaceAll(word(), " ", "")
			n = 1 + r.IntN(tail(r, 4, 50))
		default:
			p.n = r.IntN(4)
			if r.IntN(8) == 0 {
				p.n = r.IntN(60)
			}
		}
		for ; n > 0; n-- {
			p.kids = append(p.kids, randPlan(r, depth-1))
		}
		return p
	}
	textWord := func() string {
		if r.IntN(3) == 0 {
			return pick(r, []string{`a", "b`, "a\nb", `"`, `\`, `")`, `, `, "<space>", "<comma>", "", "$x$", "a#b", "漢", "\x00"})
		}
		return word()
	}
	p.op = pick(r, []string{"text", "text", "text", "space", "nbsp", "math", "comma", "macro", "escaped", "unparsed", "unparsed brace", "ident", "accent"})
	switch p.op {
	case "text":
		p.s = textWord()
	case "math", "unparsed", "unparsed brace", "ident":
		p.s = word()
	case "macro":
		p.s = strings.ReplaceAll(word(), " ", "")
	case "escaped":
		p.s = string(pickByte(r, escapeChars))
	case "accent":
		p.s, p.n = string(letters[r.IntN(len(letters))]), int(pick(r, accents))
	}
	return p
}

func (p *plan) build() ast.Expr {
	var xs []ast.Expr
	var as []interface{}
	for _, k := range p.kids {
		x := k.build()
		xs, as = append(xs, x), append(as, x)
	}
	switch p.op {
	case "quote":
		return asts.QuotedTextExpr(p.n, xs...)
	case "brace":
		return asts.BraceTextExpr(p.n, xs...)
	case "concat":
		return asts.Concat(xs[0], xs[1])
	case "macro":
		return asts.Macro(p.s, as...)
	case "text":
		return asts.Text(p.s)
	case "space":
		return asts.Space()
	case "nbsp":
		return asts.NBSP()
	case "math":
		return asts.Math(p.s)
	case "comma":
		return asts.Comma()
	case "escaped":
		return asts.Escaped(rune(p.s[0]))
	case "unparsed":
		return asts.UnparsedText(p.s)
	case "unparsed brace":
		return asts.UnparsedBraceText(p.s)
	case "accent":
		return asts.AccentedText(token.Accent(p.n), p.s)
	default:
		return asts.Ident(p.s)
	}
}

func (p *plan) String() string {
	if p.op == "concat" { // operands associate to the right in all parsed values
		return p.kids[0].String() + " # " + p.kids[1].String()
	}
	return fmt.Sprintf("%s %d %q%v", p.op, p.n, p.s, p.kids)
}

func (p *plan) all() []*plan {
	out := []*plan{p}
	for _, k := range p.kids {
		out = append(out, k.all()...)
	}
	return out
}

func (p *plan) copy() *plan {
	c := *p
	c.kids = nil
	for _, k := range p.kids {
		c.kids = append(c.kids, k.copy())
	}
	return &c
}

// builtPair describes two trees made by the helpers, of which the second is
// the first one again or differs in one place. The source has no such trees
// when macros have several arguments.
func builtPair(t *T) {
	r := t.R
	p := randPlan(r, 1+r.IntN(4))
	q := p.copy()
	if r.IntN(4) > 0 {
		switch n := pick(r, q.all()); r.IntN(8) {
		case 6: // a text that reads like the description of several parts
			for i := 0; i+1 < len(n.kids); i++ {
				if a, b := n.kids[i], n.kids[i+1]; n.op != "concat" && a.op == "text" && b.op == "text" {
					a.s += `", "` + b.s
					n.kids = append(append([]*plan{}, n.kids[:i+1]...), n.kids[i+2:]...)
					break
				}
			}
		case 7:
			s := asts.ExprString(n.build())
			if r.IntN(2) == 0 {
				s = strings.Trim(s, `"`)
			}
			*n = plan{op: "text", s: s}
		case 0:
			if n.s != "" && n.op != "escaped" && n.op != "accent" {
				n.s += string(letters[r.IntN(len(letters))])
			}
		case 1:
			if n.s != "" && n.op != "escaped" && n.op != "accent" {
				n.s = strings.Repeat(n.s[:len(n.s)/2], 2) + "e"
			}
			n.s = strings.ToValidUTF8(n.s, "u")
		case 2: // lose an argument
			if k := len(n.kids); k > 1 && n.op != "concat" {
				i := r.IntN(k)
				n.kids = append(append([]*plan{}, n.kids[:i]...), n.kids[i+1:]...)
			}
		case 3: // exchange two
			if k := len(n.kids); k > 1 {
				i, j := r.IntN(k), r.IntN(k)
				n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
			}
		case 4: // another kind or depth
			switch n.op {
			case "quote":
				n.op = "brace"
			case "brace":
				n.n++
			case "text", "math", "unparsed", "unparsed brace", "ident":
				if n.op = pick(r, []string{"text", "math", "unparsed", "unparsed brace", "ident"}); n.op != "text" {
					n.s = strings.Map(func(c rune) rune {
						if strings.ContainsRune(asciiText, c) {
							return c
						}
						return -1
					}, n.s)
				}
			case "comma", "space", "nbsp":
				n.op = pick(r, []string{"comma", "space", "nbsp"})
			}
		default:
			*n = *randPlan(r, 1)
		}
	}
	t.Input(p.String() + "\n----\n" + q.String())
	t.Guard(len(t.input))
	e1, e2 := asts.ExprString(p.build()), asts.ExprString(q.build())
	t.Done()
	t.Eval()
	same := p.String() == q.String()
	if same != (e1 == e2) {
		t.Fail("values %s and %s are described as %s and %s", p, q, e1, e2)
	}
	if same {
		t.Event("built pair, equal", 1)
	} else {
		t.Event("built pair, different", 1)
	}
}

// deepen adds n to the depth of all texts of a value.
func deepen(x ast.Expr, n int) {
	if p, ok := x.(*ast.ParsedText); ok {
		p.Depth += n
		for _, v := range p.Values {
			deepen(v, n)
		}
	}
}

func runC24(t *T) {
	r := t.R
	if r.IntN(10) == 0 {
		builtPair(t)
		return
	}
	o := dumpOpt{strings: true}
	switch r.IntN(5) {
	case 0:
		buildAny(t, pick(r, []func() string{func() string { return randomBytes(r, r.IntN(8)) }, func() string { return tokenSoup(r, r.IntN(4)) }, func() string { return hostile(t) }})())
	case 1, 2:
		quote := r.IntN(2) == 0
		ps := helperParts(t, quote)
		var built *ast.ParsedText
		src := "{" + strings.Join(ps, "") + "}"
		depth := 0
		if r.IntN(3) == 0 {
			depth = pick(r, []int{1, 2, 3, 7, 1 + r.IntN(60)})
			t.Event("built at a depth", 1)
		}
		if quote {
			built = asts.QuotedText(depth, ps...)
			src = `"` + strings.Join(ps, "") + `"`
		} else {
			var as []interface{}
			for _, p := range ps {
				as = append(as, p)
			}
			built = asts.BraceText(depth, as...)
		}
		t.Input(src)
		full := src
		if depth > 0 && !quote {
			full = strings.Repeat("{", depth) + src + strings.Repeat("}", depth)
		}
		parsed, err := t.parseExpr(full)
		if err != nil {
			t.Fail("a well-formed literal is rejected: %v", err)
		}
		for k := depth; k > 0; k-- {
			if quote { // no source has a quoted text below another one
				deepen(parsed, 1)
				continue
			}
			x, ok := parsed.(*ast.ParsedText)
			if !ok || len(x.Values) != 1 {
				t.Fail("braces around a literal give %s", dumpExpr(parsed, 1, o))
			}
			parsed = x.Values[0]
		}
		if a, b := dumpExpr(parsed, 1, o), dumpExpr(built, 1, o); a != b {
			t.Fail("parts %q at depth %d: parsed (want) and built (got) differ\n%s", ps, depth, diff(a, b))
		}
		if a, b := asts.ExprString(parsed), asts.ExprString(built); a != b {
			t.Fail("parts %q: descriptions of parsed and built differ\n%s", ps, diff(a, b))
		}
		t.Event("built and parsed", 1)
		if len(ps) > 1 {
			t.Distinct(src)
			t.Sample(fmt.Sprintf("%q", ps))
		}
		if depth == 0 && r.IntN(3) == 0 { // a whole entry
			name := func() string {
				if r.IntN(3) == 0 {
					return anyWord(t, r.IntN(2) == 0)
				}
				return strings.ToLower(anyWord(t, false))
			}
			ascii := func(s string) string {
				s = strings.Map(func(c rune) rune {
					if c < 0x80 && isLetterByte(byte(c)) {
						return c
					}
					return -1
				}, s)
				return "x" + s
			}
			var keys []string
			for n := r.IntN(tail(r, 4, 30)); n > 0; n-- {
				keys = append(keys, pick(r, []string{fmt.Sprintf("k%d", n), ascii(name()), fmt.Sprintf("%s%d", pick(r, []string{"K", "key", "DBLP-", "a-b_c"}), r.IntN(1e6))}))
			}
			typ := pick(r, []string{"book", "article", "misc", "phdthesis", "inproceedings", "online", "mastersthesis", "x" + strings.ToLower(ascii(name()))})
			decl := &ast.BibDecl{}
			opts := []func(*ast.BibDecl){asts.WithBibType(typ), asts.WithBibKeys(keys...)}
			doc := "@" + typ + "{" + strings.Join(keys, ", ")
			var tags []string
			for n := 1 + r.IntN(tail(r, 4, 30)); n > 0; n-- {
				tags = append(tags, pick(r, []string{fmt.Sprintf("t%d", n), "title", "author", "year", strings.ToLower(ascii(name()))}))
			}
			var rest []interface{}
			vals := []ast.Expr{built}
			for i, tag := range tags {
				if len(keys) > 0 || i > 0 {
					doc += ", "
				}
				v, x := src, ast.Expr(built)
				if i > 0 && r.IntN(3) == 0 {
					v = fmt.Sprintf("name%d", i)
					x = asts.Ident(v)
					if r.IntN(2) == 0 {
						v += " # " + src
						x = asts.Concat(x, built)
					}
				}
				doc += tag + " = " + v
				if i > 0 {
					rest = append(rest, tag, x)
				}
				vals = append(vals, x)
			}
			opts = append(opts, asts.WithBibTags(tags[0], built, rest...))
			r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			for _, opt := range opts {
				opt(decl)
			}
			f := t.mustParse(doc+"}", mStrings)
			o.raw = true
			if a, b := dumpFile(f, 1, o), dumpDecl(decl, 1, o); a != b {
				t.Fail("the parsed entry (want) and the built one (got) differ\n%s", diff(a, b))
			}
			// The same options for another entry.
			decl2 := &ast.BibDecl{Type: pick(r, []string{"", typ, "article", anyWord(t, false)})}
			for _, opt := range opts {
				opt(decl2)
			}
			if a, b := dumpDecl(decl, 1, o), dumpDecl(decl2, 1, o); a != b {
				t.Fail("the options make another entry the second time (got)\n%s", diff(a, b))
			}
			for i, v := range append([]ast.Expr{}, vals...) {
				if i > 0 && decl.Tags[i-1].Value != v {
					t.Fail("tag %d does not hold the value given", i-1)
				}
			}
			t.Event("entry built and parsed", 1)
		}
	default:
		// Descriptions are equal exactly when values are.
		g := newGen(r, r.IntN(2) == 0)
		mode := mStrings
		if g.both && r.IntN(2) == 0 {
			mode = 0
		}
		x := g.value()
		if r.IntN(12) == 0 { // long
			g.large[0] = g.largeDim(pick(r, []int{dimText, dimParts, dimMath, dimURL, dimSpace, dimMacro}))
			g.large[0].times = 9
			x = g.literal()
			for len(x.parts) == 0 {
				x = g.literal()
			}
		}
		src := func(y *mExpr, l *layout) (string, ast.Expr) {
			d := &mDoc{decls: []*mDecl{{kind: 'p', typ: "preamble", text: y}}}
			d.emit(l)
			f := t.mustParse(d.src, mode)
			return d.src, f.Entries[0].(*ast.PreambleDecl).Text
		}
		s1, v1 := src(x, randLayout(r))
		y := x
		switch r.IntN(4) {
		case 3:
			if y = editByte(t, x); y == x {
				y = respell(t, x, mode != 0)
				break
			}
			t.Event("one byte changed", 1)
		case 0:
			y = g.value()
		case 1:
			y = editExpr(t, g, x)
		default:
			y = respell(t, x, mode != 0)
			t.Event("white space respelled", 1)
		}
		s2, v2 := src(y, randLayout(r))
		t.Input(s1 + "\n----\n" + s2)
		o.strings = mode != 0
		d1, d2 := dumpExpr(v1, 1, o), dumpExpr(v2, 1, o)
		e1, e2 := asts.ExprString(v1), asts.ExprString(v2)
		t.Eval()
		if r.IntN(6) == 0 {
			movePos(t, v1)
			if again := asts.ExprString(v1); again != e1 {
				t.Fail("a value is described as %s at one place and as %s at another", e1, again)
			}
		}
		if (d1 == d2) != (e1 == e2) {
			t.Fail("values %s and %s are described as %s and %s", d1, d2, e1, e2)
		}
		if d1 == d2 {
			t.Event("equal pair", 1)
		} else {
			t.Event("different pair", 1)
		}
		t.Distinct(s1 + s2)
	}
}

func copyExpr(x *mExpr) *mExpr {
	c := *x
	c.ops = nil
	c.xs = nil
	for _, y := range x.xs {
		c.xs = append(c.xs, copyExpr(y))
	}
	c.parts = copyParts(x.parts)
	return &c
}

func copyParts(ps []*mPart) []*mPart {
	var out []*mPart
	for _, p := range ps {
		c := *p
		c.parts = copyParts(p.parts)
		out = append(out, &c)
	}
	return out
}

// respell changes only how white space and accents are spelled.
func respell(t *T, x *mExpr, strs bool) *mExpr {
	c := copyExpr(x)
	if !strs {
		return c
	}
	var rec func(ps []*mPart)
	rec = func(ps []*mPart) {
		for _, p := range ps {
			if p.kind == ' ' {
				p.s = pick(t.R, stringSpaces)
			}
			rec(p.parts)
		}
	}
	var ex func(x *mExpr)
	ex = func(x *mExpr) {
		rec(x.parts)
		for _, y := range x.xs {
			ex(y)
		}
	}
	ex(c)
	return c
}

// editByte changes one letter or digit in one leaf, or adds one to it.
func editByte(t *T, x *mExpr) *mExpr {
	c := copyExpr(x)
	var leaves []*string
	var rec func(ps []*mPart)
	rec = func(ps []*mPart) {
		for _, p := range ps {
			switch p.kind {
			case 't', '$', 'u':
				leaves = append(leaves, &p.s)
			case 'm':
				if len(p.s) > 4 {
					leaves = append(leaves, &p.s)
				}
			}
			rec(p.parts)
		}
	}
	var ex func(x *mExpr)
	ex = func(x *mExpr) {
		if x.kind == 'n' || x.kind == 'i' {
			leaves = append(leaves, &x.s)
		}
		rec(x.parts)
		for _, y := range x.xs {
			ex(y)
		}
	}
	ex(c)
	if len(leaves) == 0 {
		return x
	}
	s := pick(t.R, leaves)
	var at []int
	for i := 0; i < len(*s); i++ {
		ch := (*s)[i]
		if i > 0 && (*s)[i-1] == '\\' || i > 1 && isLetterByte(ch) && strings.LastIndexByte((*s)[:i], '\\') >= 0 {
			continue // in a macro
		}
		if isLetterByte(ch) || isDigitByte(ch) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return x
	}
	i := pick(t.R, at)
	if t.R.IntN(2) == 0 {
		i = at[len(at)-1]
	}
	b := []byte(*s)
	switch {
	case isDigitByte(b[i]):
		b[i] = '0' + (b[i]-'0'+byte(1+t.R.IntN(9)))%10
	case t.R.IntN(3) == 0:
		b[i] ^= 0x20
	default:
		b[i] = b[i]&0x20 | 'A' + (b[i]&^0x20-'A'+byte(1+t.R.IntN(25)))%26
	}
	*s = string(b)
	return c
}

// editExpr makes one change.
func editExpr(t *T, g *gen, x *mExpr) *mExpr {
	r := t.R
	c := copyExpr(x)
	switch c.kind {
	case '#':
		switch r.IntN(4) {
		case 0:
			i := r.IntN(len(c.xs))
			c.xs[i] = editExpr(t, g, c.xs[i])
		case 1:
			c.xs[0], c.xs[1] = c.xs[1], c.xs[0]
		case 2:
			c.xs = append(c.xs, g.operand())
		default:
			return c.xs[0]
		}
	case 'n', 'i':
		switch r.IntN(4) {
		case 3:
			if strings.Trim(c.s, asciiText) == "" {
				return &mExpr{kind: 'l', parts: []*mPart{{kind: 't', s: c.s}}, quote: r.IntN(2) == 0}
			}
		case 0:
			return &mExpr{kind: 'n', s: g.digits()}
		case 1:
			return &mExpr{kind: 'i', s: g.ident()}
		default:
			return &mExpr{kind: 'l', parts: []*mPart{{kind: 't', s: "x"}}}
		}
	case 'l':
		edit := func(ps []*mPart) []*mPart {
			if len(ps) == 0 {
				return g.partList(1, true, 1)
			}
			i := r.IntN(len(ps))
			switch p := ps[i]; r.IntN(8) {
			case 5, 6, 7:
				if q := otherKind(t, p); q != nil {
					ps[i] = q
					t.Event("same content in another kind", 1)
				}
			case 0:
				return append(append([]*mPart{}, ps[:i]...), ps[i+1:]...)
			case 1:
				if q := g.part(1, true, false); q != nil {
					ps[i] = q
				}
			case 2:
				if i > 0 {
					ps[i], ps[i-1] = ps[i-1], ps[i]
				}
			case 3:
				ps[i] = &mPart{kind: 'g', parts: []*mPart{p}}
			default:
				if p.kind == 'g' {
					return append(append(append([]*mPart{}, ps[:i]...), p.parts...), ps[i+1:]...)
				}
			}
			return ps
		}
		if r.IntN(6) == 0 && !strings.Contains(litSource(t, copyExpr(c)), `"`) {
			c.quote = !c.quote
			return c
		}
		old := copyExpr(c)
		c.parts = edit(c.parts)
		for i, p := range c.parts {
			if i > 0 && !canFollow(c.parts[i-1], p) {
				return old
			}
			if g.both && c.quote && p.kind == '\'' && p.acc == '"' {
				return old
			}
			if c.quote && p.kind == 't' && strings.Contains(p.s, `"`) || c.quote && p.kind == '$' && strings.Contains(p.s, `"`) && g.both {
				return old
			}
		}
	}
	return c
}

// otherKind is a part of another kind with much the same content, or nil.
func otherKind(t *T, p *mPart) *mPart {
	r := t.R
	word := func(s string) bool { return s != "" && strings.Trim(s, asciiText+"&%_^+=.") == "" }
	switch p.kind {
	case '\\':
		if word(p.s) {
			return &mPart{kind: 't', s: p.s}
		}
	case '\'':
		switch r.IntN(4) {
		case 0:
			if c := accentTable[string(p.acc)+p.s]; c != 0 {
				return &mPart{kind: 't', s: string(c)}
			}
		case 1:
			return &mPart{kind: 't', s: p.s}
		case 2:
			return &mPart{kind: '\'', acc: pick(r, accents), s: p.s, spell: 1}
		default:
			return &mPart{kind: '\'', acc: p.acc, s: string(letters[r.IntN(len(letters))]), spell: 1}
		}
	case '$':
		if word(p.s) {
			return &mPart{kind: 't', s: p.s}
		}
	case '~', ' ', ',':
		return &mPart{kind: pickByte(r, "~, "), s: " "}
	case 'm':
		return &mPart{kind: 't', s: strings.Trim(p.s, `,;[]()`) + "x"[:r.IntN(2)] + "0"[:r.IntN(2)] + "z"}
	case 'u':
		if r.IntN(2) == 0 {
			return &mPart{kind: 'u', name: map[string]string{"url": "href", "href": "url"}[p.name], s: p.s}
		}
		return &mPart{kind: 'm', s: p.name + "x"}
	case 'g':
		s, _, _ := plain(p.parts)
		if word(s) {
			return &mPart{kind: 't', s: s}
		}
	case 't':
		switch {
		case len(p.s) == 1 && strings.Contains("&%_", p.s):
			return &mPart{kind: '\\', s: p.s}
		case len(p.s) > 2 && strings.Trim(p.s, letters) == "" && r.IntN(2) == 0 && p.s != "url" && p.s != "href":
			return &mPart{kind: 'm', s: p.s}
		case word(p.s):
			return &mPart{kind: '$', s: p.s}
		}
	}
	return nil
}

// stripSpace drops the white space of s.
func stripSpace(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}
