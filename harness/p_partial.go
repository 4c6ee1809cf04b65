package main

import (
	"fmt"
	gotok "go/token"
	"io"
	"reflect"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/token"
)

// C26: the tree of every input, well-formed or not, is complete.

// treeChecker looks at every field of a tree.
type treeChecker struct {
	t      *T
	lo, hi gotok.Pos // the file's positions
	src    string
	ok     bool // the input was accepted
	seen   map[any]string
	nodes  int
	bad    int
}

var (
	exprType = reflect.TypeFor[ast.Expr]()
	declType = reflect.TypeFor[ast.Decl]()
	posType  = reflect.TypeFor[gotok.Pos]()
	pkgPath  = reflect.TypeFor[ast.File]().PkgPath()
)

// mayMiss lists the parts that may be missing.
var mayMiss = map[string]bool{"File.Doc": true, "BibDecl.Doc": true, "AbbrevDecl.Doc": true, "PreambleDecl.Doc": true, "TagStmt.Doc": true,
	"BibDecl.Key": true, "Ident.Obj": true}

// reached2 lists the parts that are reached twice: a doc comment is also in the
// file's list of comments, and scopes are no syntax.
var reached2 = map[string]bool{"File.Doc": true, "BibDecl.Doc": true, "AbbrevDecl.Doc": true, "PreambleDecl.Doc": true, "TagStmt.Doc": true,
	"File.Scope": true, "File.Unresolved": true, "Ident.Obj": true}

func (c *treeChecker) value(v reflect.Value, at string) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			c.t.Fail("the part %s of the tree is missing", at)
		}
		c.value(v.Elem(), at)
	case reflect.Pointer:
		if v.IsNil() {
			c.t.Fail("the part %s of the tree is missing", at)
		}
		if v.Elem().Type().PkgPath() != pkgPath {
			return
		}
		if was, ok := c.seen[v.Interface()]; ok {
			c.t.Fail("the part %s of the tree is also the part %s", at, was)
		}
		c.seen[v.Interface()] = at
		c.nodes++
		if n, ok := v.Interface().(ast.Node); ok {
			if k := n.Kind(); k == ast.KindBadExpr || k == ast.KindBadStmt || k == ast.KindBadDecl {
				c.bad++
			}
			c.checkPos(n.Pos(), at)
			c.checkPos(n.End(), at)
			c.literal(n, at)
		}
		c.value(v.Elem(), at)
	case reflect.Slice:
		for i := range v.Len() {
			c.value(v.Index(i), fmt.Sprintf("%s[%d]", at, i))
		}
	case reflect.Struct:
		ty := v.Type()
		for i := range ty.NumField() {
			name := ty.Name() + "." + ty.Field(i).Name
			f := v.Field(i)
			if f.Type() == posType {
				c.position(f, name, at)
				continue
			}
			if (f.Kind() == reflect.Pointer || f.Kind() == reflect.Interface) && f.IsNil() && mayMiss[name] {
				continue
			}
			if reached2[name] {
				continue
			}
			c.value(f, at+"."+ty.Field(i).Name)
		}
	}
}

// literal decides whether a string that isn't marked as bad is a whole string.
func (c *treeChecker) literal(n ast.Node, at string) {
	is := func(p gotok.Pos, want string) bool {
		return p >= c.lo && p <= c.hi && strings.HasPrefix(c.src[p-c.lo:], want)
	}
	switch x := n.(type) {
	case *ast.ParsedText:
		open, cl := "{", "}"
		if x.Delim == ast.QuoteDelimiter {
			open, cl = `"`, `"`
		}
		if !is(x.Opener, open) || !is(x.Closer, cl) || x.Closer <= x.Opener {
			c.t.Fail("the string %s of the tree begins at %d and ends at %d, where there are no %s and %s", at, x.Opener-c.lo, x.Closer-c.lo, open, cl)
		}
		c.t.Event("whole string", 1)
	case *ast.UnparsedText:
		open, cl := "{", "}"
		if x.Type == token.String {
			open, cl = `"`, `"`
		}
		if !is(x.ValuePos, open+x.Value) || !is(x.ValuePos+gotok.Pos(1+len(x.Value)), cl) && c.ok {
			c.t.Fail("the string %s at %d of the tree isn't in the source", at, x.ValuePos-c.lo)
		}
		c.t.Event("whole string", 1)
	case *ast.BibDecl:
		if !is(x.Entry, "@") {
			c.t.Fail("the entry %s does not begin with @", at)
		}
	case *ast.AbbrevDecl:
		if !is(x.Entry, "@") {
			c.t.Fail("the abbreviation %s does not begin with @", at)
		}
	case *ast.PreambleDecl:
		if !is(x.Entry, "@") {
			c.t.Fail("the preamble %s does not begin with @", at)
		}
	}
}

func (c *treeChecker) position(f reflect.Value, name, at string) {
	p := gotok.Pos(f.Int())
	if p == gotok.NoPos && name == "TextMacro.RBrace" {
		return
	}
	c.checkPos(p, at+" ("+name+")")
}

func (c *treeChecker) checkPos(p gotok.Pos, at string) {
	if p < c.lo || p > c.hi {
		c.t.Fail("the part %s of the tree has the position %d outside its file (%d to %d)", at, p, c.lo, c.hi)
	}
}

// checkPartial judges the tree of src.
func (t *T) checkPartial(src string, mode parser.Mode) {
	fset := gotok.NewFileSet()
	pad := 0
	if t.R.IntN(2) == 0 {
		pad = 1 + t.R.IntN(500)
		fset.AddFile("other.bib", -1, pad-1)
	}
	t.Guard(len(src))
	f, err := parser.ParseFile(fset, caseFile, src, mode)
	t.Done()
	t.Eval()
	if f == nil {
		t.Fail("mode %d: no file (error %v)", mode, err)
	}
	if f.Name != caseFile {
		t.Fail("mode %d: the file is named %q", mode, f.Name)
	}
	lo := gotok.Pos(1 + pad)
	c := &treeChecker{t: t, lo: lo, hi: lo + gotok.Pos(len(src)), src: src, ok: err == nil, seen: map[any]string{}}
	c.value(reflect.ValueOf(f).Elem(), "file")
	if err == nil && c.bad > 0 {
		t.Fail("mode %d: no error, but %d bad nodes in the tree", mode, c.bad)
	}
	last := lo
	for i, d := range f.Entries {
		if d.Pos() < last {
			t.Fail("mode %d: declaration %d at %d starts before the one before it (%d)", mode, i, d.Pos(), last)
		}
		last = d.Pos()
		if d.End() < d.Pos() {
			t.Fail("mode %d: declaration %d ends at %d before it starts at %d", mode, i, d.End(), d.Pos())
		}
	}
	t.MaxOf("nodes of one tree", int64(c.nodes))
	if err != nil {
		t.Event("tree next to errors", 1)
		if len(f.Entries) > 0 {
			t.Event("declarations next to errors", len(f.Entries))
		}
		t.Event("bad nodes", c.bad)
	} else {
		t.Event("tree without errors", 1)
	}

	// Use the tree.
	t.Guard(len(src) + 200)
	visited := 0
	if err := ast.Walk(f, func(n ast.Node, enter bool) (ast.WalkStatus, error) {
		if n == nil || reflect.ValueOf(n).Kind() == reflect.Pointer && reflect.ValueOf(n).IsNil() {
			t.Fail("mode %d: the walk visits a missing node", mode)
		}
		if enter {
			visited++
			t.Event("node "+n.Kind().String(), 1)
		}
		return ast.WalkContinue, nil
	}); err != nil {
		t.Fail("mode %d: the walk fails: %v", mode, err)
	}
	t.Event("nodes walked", visited)
	for _, d := range f.Entries {
		var xs []ast.Expr
		switch d := d.(type) {
		case *ast.PreambleDecl:
			xs = append(xs, d.Text)
		case *ast.AbbrevDecl:
			xs = append(xs, d.Tag.Value)
		case *ast.BibDecl:
			for _, tag := range d.Tags {
				xs = append(xs, tag.Value)
			}
		}
		for _, x := range xs {
			if asts.ExprString(x) == "" {
				t.Fail("mode %d: a value of type %T has an empty description", mode, x)
			}
			t.Event("value described", 1)
		}
	}
	rerr := bibtex.New().Render(io.Discard, f)
	if rerr == nil {
		t.Event("rendered", 1)
	} else {
		t.Event("rendering refused", 1)
	}
	bibs := 0
	for _, d := range f.Entries {
		if _, ok := d.(*ast.BibDecl); ok {
			bibs++
		}
	}
	// The bad nodes of the entries found are counted again after resolving: a
	// resolver may refuse a bad tree but not crash on it.
	rs := [][]bibtex.Resolver{
		nil,
		{bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver)},
		{bibtex.NewAuthorResolver("author", "editor", "a")},
		{bibtex.NewRenderParsedTextResolver()},
		{bibtex.NewAuthorResolver("author", "editor", "a"), bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()},
	}
	for i, r := range rs {
		if i > 0 && t.R.IntN(2) == 0 {
			continue
		}
		g, _ := parser.ParseFile(gotok.NewFileSet(), caseFile, src, mode)
		es, err := bibtex.New(bibtex.WithResolvers(r...)).Resolve(g)
		t.Eval()
		if err == nil {
			t.Event("resolved", 1)
			if len(es) != bibs {
				t.Fail("mode %d: resolvers %d: %d entries of %d declarations", mode, i, len(es), bibs)
			}
		} else {
			if i < 2 {
				t.Fail("mode %d: resolvers %d refuse the tree: %v", mode, i, err)
			}
			t.Event("resolving refused", 1)
		}
	}
	t.Done()
}

func init() {
	register(&Prop{
		ID: "C26", Level: "exploration", Quick: 150000, Thorough: 2000000, MinDist: 20000,
		Rule: "the trees of hostile inputs (random bytes, token soups, damaged and cut-off documents, deep nests) in random modes are inspected part by part, walked, described, rendered and resolved. Non-trivial: every input with errors whose tree holds a declaration; distinct by input.",
		Need: []string{"traced", "tree next to errors", "declarations next to errors", "bad nodes", "tree without errors", "rendered", "rendering refused", "resolved", "resolving refused", "value described", "node BadExpr", "node BadDecl",
			"node ParsedText", "node ConcatExpr", "node TextMacro", "node AbbrevDecl", "node PreambleDecl", "node UnparsedText"},
		Fixed: func() []string { return fixedHostile },
		RunFixed: func(t *T, in string) {
			for _, s := range []string{in, "@ok{x, y = {z}}\n" + in, in + "\n@ok{x, y = {z}}"} {
				t.Input(s)
				for m := range 32 {
					if modeOf(m)&mTrace == 0 {
						t.checkPartial(s, modeOf(m))
					}
				}
			}
		},
		Run: func(t *T) {
			var src string
			switch t.R.IntN(6) {
			case 0:
				src = deepConcat(t.R)
			case 1:
				src = hostile(t) + pick(t.R, []string{"\n", " ", ""}) + hostile(t)
			case 2:
				src = damagedValue(t)
			default:
				src = hostile(t)
			}
			t.Input(src)
			mode := randFlags(t) | mStrings*parser.Mode(t.R.IntN(2))
			if len(src) > 1500 {
				mode &^= mTrace // its output is long
			}
			if mode&mTrace != 0 {
				t.Event("traced", 1)
			}
			t.checkPartial(src, mode)
			t.Distinct(src)
			t.Sample(src)
		},
	})
}

// damagedValue puts hostile text into strings of a document.
func damagedValue(t *T) string {
	r := t.R
	var b strings.Builder
	for n := 1 + r.IntN(3); n > 0; n-- {
		b.WriteString(pick(r, []string{"@b{k, author = ", "@b{k, url = ", "@b{k, a = ", "@string{s = ", "@preamble{"}))
		for {
			open, cl := "{", "}"
			if r.IntN(2) == 0 {
				open, cl = `"`, `"`
			}
			b.WriteString(open)
			for k := r.IntN(6); k > 0; k-- {
				b.WriteString(pick(r, soup))
			}
			if r.IntN(8) > 0 {
				b.WriteString(cl)
			}
			if r.IntN(4) > 0 {
				break
			}
			b.WriteString(" # ")
		}
		if r.IntN(8) > 0 {
			b.WriteByte('}')
		}
		b.WriteString(pick(r, []string{"\n", "", " "}))
	}
	return b.String()
}
