package main

import (
	"errors"
	"fmt"
	gotok "go/token"
	"io/fs"
	"maps"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration", Quick: 450000, Thorough: 8000000, MinDist: 10000,
		Rule: "random documents, packages, entries and other nodes are resolved through instances with random lists of recording, changing and failing resolvers; calls, order, error and entries are compared with the tree. Non-trivial: at least two entries or two resolvers; distinct by source text and configuration.",
		Need: []string{"entries compared", "entry without key", "entry with extra keys", "duplicate tag", "resolver failed", "failure wrapped by the resolver", "tree changed by a resolver", "package", "unusual file name", "the same resolver again", "resolved inside a resolver", "entries changed by the caller", "options of other parts", "package with several files", "single entry", "node refused", "no resolvers", "several options", "resolved twice", "built-in resolver failed", "unparsed strings", "standard names", "thousands of entries"},
		Run:  runC13,
	})
	register(&Prop{
		ID: "C21", Level: "exploration", Quick: 60000, Thorough: 1000000, MinDist: 1500,
		Rule: "random lists of well-formed, malformed, empty and missing files and directories, some repeated, are parsed as a package and one by one; trees, names, positions and errors are compared. Non-trivial: at least two files; distinct by file list and contents.",
		Need: []string{"good file", "malformed file", "empty file", "missing file", "directory", "repeated file", "same file under two names", "first failure compared", "no failure", "empty list", "positions compared", "many files", "unusual name", "relative names"},
		Run:  runC21,
	})
	register(&Prop{
		ID: "C22", Level: "exploration", Quick: 1000000, Thorough: 12000000, MinDist: 20000,
		Rule: "random addresses are put into url tags of random letter case, plain or in a macro, in either delimiter, and into url and href macros between other text; the tree and its plain text must hold the very address. Non-trivial: the address has a character that is special in TeX text; distinct by source text.",
		Need: []string{"plain in braces", "plain in quotes", "macro in braces", "macro in quotes", "macro in text", "upper-case tag", "tilde", "percent", "hash", "underscore", "comma", "ampersand", "unparsed strings", "through an instance", "backslash in a quoted address"},
		Run:  runC22,
	})
	register(&Prop{
		ID: "C25", Level: "exploration", Quick: 500000, Thorough: 8000000, MinDist: 10000,
		Rule: "random histories of insertions and look-ups over nested scopes are compared with a table; objects of parsed entries report positions. Non-trivial: at least five operations; distinct by history.",
		Need: []string{"inserted", "name taken", "found", "not found", "only in an outer scope", "key position", "name does not match", "entry without key", "no declaration", "same object again", "declaration made by hand"},
		Run:  runC25,
	})
}

// ---------------------------------------------------------------------------
// C13

var errResolve = errors.New("injected resolver failure")

type typedFailure struct{ n int }

func (f *typedFailure) Error() string { return fmt.Sprintf("typed failure %d", f.n) }

func entriesOf(f *ast.File) []*ast.BibDecl {
	var out []*ast.BibDecl
	for _, e := range f.Entries {
		if b, ok := e.(*ast.BibDecl); ok {
			out = append(out, b)
		}
	}
	return out
}

// checkEntry compares an entry with its declaration.
func checkEntry(t *T, e bibtex.Entry, d *ast.BibDecl) {
	if e.Type != d.Type {
		t.Fail("entry of type %q, want %q", e.Type, d.Type)
	}
	key := ""
	if d.Key != nil {
		key = d.Key.Name
		if len(d.ExtraKeys) > 0 {
			t.Event("entry with extra keys", 1)
		}
	} else {
		t.Event("entry without key", 1)
	}
	if e.Key != key {
		t.Fail("entry with key %q, want %q", e.Key, key)
	}
	vals := map[string][]ast.Expr{}
	for _, tag := range d.Tags {
		vals[tag.Name] = append(vals[tag.Name], tag.Value)
	}
	for name, vs := range vals {
		got, ok := e.Tags[name]
		if !ok {
			t.Fail("entry %q lacks tag %q", key, name)
		}
		same := false
		for _, v := range vs {
			if as, ok := v.(ast.Authors); ok {
				g, ok := got.(ast.Authors)
				same = same || ok && len(g) == len(as) && (len(g) == 0 || &g[0] == &as[0])
			} else if _, ok := got.(ast.Authors); !ok {
				same = same || got == v
			}
		}
		if !same {
			t.Fail("entry %q: tag %q has a value that is not in the tree: %s", key, name, dumpExpr(got, 1, dumpOpt{strings: true}))
		}
		if len(vs) > 1 {
			t.Event("duplicate tag", 1)
		}
	}
	if len(e.Tags) != len(vals) {
		t.Fail("entry %q has %d tags, want %d", key, len(e.Tags), len(vals))
	}
}

// addDuplicates repeats a tag of an entry.
func (d *mDoc) addDuplicates(t *T) {
	for _, dc := range d.decls {
		if dc.kind != 'b' || t.R.IntN(4) > 0 {
			continue
		}
		for _, it := range dc.items {
			if it.val != nil {
				dc.items = append(dc.items, &mItem{name: recase(t.R, it.name), val: newGen(t.R, true).value()})
				break
			}
		}
	}
}

// standardNames pairs the names that a bibliography is written with, with the
// constants that a user of the package looks for.
var standardTypes = [][2]string{
	{"article", bibtex.EntryArticle}, {"book", bibtex.EntryBook}, {"booklet", bibtex.EntryBooklet}, {"inbook", bibtex.EntryInBook},
	{"incollection", bibtex.EntryInCollection}, {"inproceedings", bibtex.EntryInProceedings}, {"manual", bibtex.EntryManual},
	{"mastersthesis", bibtex.EntryMastersThesis}, {"misc", bibtex.EntryMisc}, {"phdthesis", bibtex.EntryPhDThesis},
	{"proceedings", bibtex.EntryProceedings}, {"techreport", bibtex.EntryTechReport}, {"unpublished", bibtex.EntryUnpublished},
}

var standardFields = [][2]string{
	{"address", bibtex.FieldAddress}, {"annote", bibtex.FieldAnnote}, {"author", bibtex.FieldAuthor}, {"booktitle", bibtex.FieldBookTitle},
	{"chapter", bibtex.FieldChapter}, {"doi", bibtex.EntryDOI}, {"crossref", bibtex.FieldCrossref}, {"edition", bibtex.FieldEdition},
	{"editor", bibtex.FieldEditor}, {"howpublished", bibtex.FieldHowPublished}, {"institution", bibtex.FieldInstitution},
	{"journal", bibtex.FieldJournal}, {"key", bibtex.FieldKey}, {"month", bibtex.FieldMonth}, {"note", bibtex.FieldNote},
	{"number", bibtex.FieldNumber}, {"organization", bibtex.FieldOrganization}, {"pages", bibtex.FieldPages}, {"publisher", bibtex.FieldPublisher},
	{"school", bibtex.FieldSchool}, {"series", bibtex.FieldSeries}, {"title", bibtex.FieldTitle}, {"type", bibtex.FieldType},
	{"volume", bibtex.FieldVolume}, {"year", bibtex.FieldYear},
}

// standardEntry checks that what is written under a standard name, in any
// letter case, is found under the constant of that name.
func standardEntry(t *T) {
	r := t.R
	typ := pick(r, standardTypes)
	fields := slices.Clone(standardFields)
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	fields = fields[:1+r.IntN(len(fields))]
	var b strings.Builder
	fmt.Fprintf(&b, "@%s{key", recase(r, typ[0]))
	for i, f := range fields {
		fmt.Fprintf(&b, ",\n %s = %d", recase(r, f[0]), 100+i)
	}
	b.WriteString("\n}\n")
	f := t.mustParse(b.String(), mStrings)
	t.Guard(b.Len())
	es, err := bibtex.New().Resolve(f)
	t.Eval()
	if err != nil || len(es) != 1 {
		t.Fail("resolves to %d entries, %v", len(es), err)
	}
	if es[0].Type != typ[1] {
		t.Fail("type %q, but the constant is %q", es[0].Type, typ[1])
	}
	for i, f := range fields {
		n, ok := es[0].Tags[f[1]].(*ast.Number)
		if !ok || n.Value != fmt.Sprint(100+i) {
			t.Fail("under %q, the constant for %q, the entry has %v", f[1], f[0], es[0].Tags[f[1]])
		}
	}
	if len(es[0].Tags) != len(fields) {
		t.Fail("%d tags instead of %d", len(es[0].Tags), len(fields))
	}
	t.Event("standard names", 1)
}

type loggedResolver struct{ run func(ast.Node) error }

func (l *loggedResolver) Resolve(n ast.Node) error { return l.run(n) }

// spoil changes entries as a caller may.
func spoil(r *rand.Rand, es []bibtex.Entry) {
	for i := range es {
		if es[i].Tags == nil {
			continue
		}
		for _, k := range slices.Sorted(maps.Keys(es[i].Tags)) {
			if r.IntN(2) == 0 {
				delete(es[i].Tags, k)
			}
		}
		es[i].Tags["spoilt"] = &ast.Text{Value: "spoilt"}
		es[i].Type, es[i].Key = "spoilt", "spoilt"
	}
	if len(es) > 1 {
		es[0], es[1] = es[1], es[0]
	}
}

func runC13(t *T) {
	r := t.R
	if r.IntN(20) == 0 {
		standardEntry(t)
		return
	}
	g := newGen(r, true)
	g.okAcc = true
	mode := mStrings
	if r.IntN(4) == 0 {
		mode = 0
		t.Event("unparsed strings", 1)
	}
	src := ""
	file := func(i int) *ast.File {
		d := g.docN(r.IntN(6))
		d.addDuplicates(t)
		d.emit(randLayout(r))
		src += d.src
		return t.mustParse(d.src, mode)
	}
	var root ast.Node
	var files []*ast.File
	pkg := (*ast.Package)(nil)
	bib := (*ast.BibDecl)(nil)
	switch r.IntN(8) {
	case 0, 1:
		pkg = &ast.Package{Files: map[string]*ast.File{}}
		n := r.IntN(tail(r, 5, 40))
		if r.IntN(200) == 0 {
			n = dictSize(r, 130)
		}
		for i := 0; i < n; i++ {
			f := file(i)
			name := fmt.Sprintf("%s%d.bib", pick(r, []string{"a", "B", "dir/c", "é", ""}), r.IntN(30+4*n))
			if r.IntN(4) == 0 {
				name = fileName(r)
				t.Event("unusual file name", 1)
			}
			if pkg.Files[name] == nil {
				pkg.Files[name] = f
				files = append(files, f)
			}
		}
		root = pkg
		t.Event("package", 1)
		if len(files) > 1 {
			t.Event("package with several files", 1)
		}
	case 2:
		f := file(0)
		if bs := entriesOf(f); len(bs) > 0 {
			bib = pick(r, bs)
			root = bib
			t.Event("single entry", 1)
			break
		}
		fallthrough
	default:
		f := file(0)
		if r.IntN(1500) == 0 {
			for n := pick(r, []int{dictSize(r, 5000), r.IntN(20000)}); n > 0; n-- {
				b := &ast.BibDecl{Type: pick(r, []string{"book", "misc", ""}), Key: &ast.Ident{Name: fmt.Sprint("k", r.IntN(n))}}
				if r.IntN(3) == 0 {
					b.Tags = []*ast.TagStmt{{Name: fmt.Sprint("t", n), Value: &ast.Number{Value: fmt.Sprint(n)}}}
				}
				f.Entries = append(f.Entries, b)
			}
			t.Event("thousands of entries", 1)
		}
		files = append(files, f)
		root = f
	}
	t.Input(src)

	// The instance.
	type call struct{ idx int }
	var calls []call
	n := pick(r, []int{0, 1, 2, 3, 5, 9})
	failAt, builtin := -1, -1
	if n > 0 && r.IntN(3) == 0 {
		failAt = r.IntN(n)
	} else if n > 0 && r.IntN(3) == 0 {
		builtin = r.IntN(n)
	}
	how := r.IntN(3)
	changes := r.IntN(3) == 0
	fail := []error{anyFault(r), fmt.Errorf("context: %w", errResolve), &typedFailure{r.IntN(9)}}[how]
	change := func() {
		for _, f := range files {
			for i, e := range f.Entries {
				b, ok := e.(*ast.BibDecl)
				if !ok {
					continue
				}
				switch (i + len(calls)) % 6 {
				case 0:
					b.Type += "x"
				case 1:
					b.Key = &ast.Ident{Name: "new"}
				case 2:
					b.Key = nil
				case 3:
					b.Tags = append(b.Tags[:len(b.Tags):len(b.Tags)], &ast.TagStmt{Name: "added", Value: &ast.Number{Value: "1"}})
				case 4:
					if len(b.Tags) > 0 {
						b.Tags[0].Value = &ast.Text{Value: "changed"}
					}
				}
			}
			if len(f.Entries) > 1 && len(calls)%2 == 0 {
				f.Entries[0], f.Entries[1] = f.Entries[1], f.Entries[0]
			}
		}
		t.Event("tree changed by a resolver", 1)
	}
	var builtinErr error
	var rs []bibtex.Resolver
	var b *bibtex.Biber
	// A resolver may use the instance it belongs to.
	nests := r.IntN(4) == 0
	var inner *ast.BibDecl
	var innerCalls []call
	var bibs []*ast.BibDecl
	if bib != nil {
		bibs = append(bibs, bib)
	}
	for _, f := range files {
		bibs = append(bibs, entriesOf(f)...)
	}
	nested := func(d *ast.BibDecl) {
		inner, innerCalls = d, nil
		es, err := b.Resolve(d)
		inner = nil
		if err != nil || len(es) != 1 || len(innerCalls) != len(rs) {
			t.Fail("resolving an entry inside a resolver: %d entries, %d of %d resolvers called, error %v", len(es), len(innerCalls), len(rs), err)
		}
		checkEntry(t, es[0], d)
		t.Event("resolved inside a resolver", 1)
	}
	var ids []int // the same resolver may be configured several times
	for i := 0; i < n; i++ {
		if i > 0 && r.IntN(5) == 0 {
			k := r.IntN(i)
			if r.IntN(2) == 0 {
				k = i - 1
			}
			rs, ids = append(rs, rs[k]), append(ids, ids[k])
			t.Event("the same resolver again", 1)
			continue
		}
		id := i
		ids = append(ids, id)
		run := func(nd ast.Node) error {
			if inner != nil { // called by what a resolver resolves itself
				if nodeID(nd) != nodeID(inner) {
					t.Fail("resolver %d receives another node", id)
				}
				innerCalls = append(innerCalls, call{id})
				return nil
			}
			if nests && len(calls)%3 == 0 && len(bibs) > 0 {
				nested(bibs[(id+len(calls))%len(bibs)])
			}
			if nodeID(nd) != nodeID(root) {
				t.Fail("resolver %d receives another node", id)
			}
			i := len(calls)
			calls = append(calls, call{id})
			if i == builtin {
				switch how {
				case 0:
					builtinErr = bibtex.NewAuthorResolver("author", "title", "note").Resolve(nd)
				case 1:
					builtinErr = bibtex.NewRenderParsedTextResolver().Resolve(nd)
				default:
					builtinErr = bibtex.SimplifyEscapedTextResolver(nd)
				}
				if builtinErr != nil {
					t.Event("built-in resolver failed", 1)
				}
				return builtinErr
			}
			if i == failAt {
				return fail
			}
			if changes {
				change()
			}
			return nil
		}
		if r.IntN(2) == 0 {
			rs = append(rs, &loggedResolver{run})
		} else {
			rs = append(rs, bibtex.ResolverFunc(run))
		}
	}
	if n == 0 {
		t.Event("no resolvers", 1)
	}
	// Options with any number of resolvers each, whose slices have room to spare.
	var opts []bibtex.Option
	opts = append(opts, bibtex.WithParserMode(mode))
	room := append(append([]bibtex.Resolver{}, rs...), rs...)
	for lo := 0; lo < n; {
		hi := lo + 1 + r.IntN(n-lo)
		if r.IntN(2) == 0 {
			opts = append(opts, bibtex.WithResolvers(room[lo:hi]...))
		} else {
			opts = append(opts, bibtex.WithResolvers(rs[lo:hi:hi]...))
		}
		if lo > 0 {
			t.Event("several options", 1)
		}
		if r.IntN(4) == 0 {
			opts = append(opts, bibtex.WithResolvers())
		}
		lo = hi
	}
	b = bibtex.New(merge(t, opts, idle(t, "resolve"))...)

	resolve := func() ([]bibtex.Entry, error) {
		calls = nil
		builtinErr = nil
		t.Guard(len(src) + 1000)
		es, err := b.Resolve(root)
		t.Done()
		t.Eval()
		wantCalls, wantErr := n, error(nil)
		if failAt >= 0 {
			wantCalls, wantErr = failAt+1, fail
		}
		if builtinErr != nil {
			wantCalls, wantErr = builtin+1, builtinErr
		}
		if len(calls) != wantCalls {
			t.Fail("%d of %d resolvers called (%v), want %d", len(calls), n, calls, wantCalls)
		}
		for i, c := range calls {
			if c.idx != ids[i] {
				t.Fail("resolver %d is called as number %d", c.idx, i)
			}
		}
		if wantErr != nil {
			if !errors.Is(err, wantErr) {
				t.Fail("resolver %d fails with %v, Resolve with %v", wantCalls-1, wantErr, err)
			}
			var tf *typedFailure
			if how == 2 && failAt >= 0 && !errors.As(err, &tf) {
				t.Fail("the type of the failure is lost: %v", err)
			}
			if how == 1 && failAt >= 0 {
				if !errors.Is(err, errResolve) {
					t.Fail("the cause of the failure is lost: %v", err)
				}
				t.Event("failure wrapped by the resolver", 1)
			}
			if len(es) > 0 {
				t.Fail("a failure and %d entries", len(es))
			}
			t.Event("resolver failed", 1)
			return nil, err
		}
		if err != nil {
			t.Fail("resolving fails: %v", err)
		}
		return es, nil
	}
	check := func(es []bibtex.Entry) {
		switch {
		case bib != nil:
			if len(es) != 1 {
				t.Fail("%d entries for one declaration", len(es))
			}
			checkEntry(t, es[0], bib)
		case pkg == nil:
			want := entriesOf(files[0])
			if len(es) != len(want) {
				t.Fail("%d entries, want %d", len(es), len(want))
			}
			for i, e := range es {
				checkEntry(t, e, want[i])
			}
		default:
			// File by file: some permutation of the files, always the same.
			total := 0
			for _, f := range files {
				total += len(entriesOf(f))
			}
			if len(es) != total {
				t.Fail("%d entries, want %d", len(es), total)
			}
			if !fileByFile(es, files) {
				t.Fail("the entries of the package are not those of its files, file by file:\n%s", describeEntries(es))
			}
		}
		t.Event("entries compared", len(es))
	}
	es, err := resolve()
	if err == nil {
		check(es)
		if !changes && builtin < 0 {
			first := describeEntries(es)
			kept := es
			for i := 0; i < 3; i++ {
				es, _ := resolve()
				check(es)
				if i == 0 && describeEntries(kept) != first {
					t.Fail("resolving again changes the entries returned before\n%s", diff(first, describeEntries(kept)))
				}
				if r.IntN(2) == 0 { // the entries belong to the caller
					defer func(es []bibtex.Entry, was string) {
						if s := describeEntries(es); s != was {
							t.Fail("resolving again changes the entries returned before\n%s", diff(was, s))
						}
					}(kept, func() string { spoil(r, kept); return describeEntries(kept) }())
					kept = es
					t.Event("entries changed by the caller", 1)
				}
				if again := describeEntries(es); again != first {
					t.Fail("resolving again gives other entries\n%s", diff(first, again))
				}
			}
			t.Event("resolved twice", 1)
			if pkg != nil {
				// The same package, put together in another order.
				p2 := &ast.Package{Files: map[string]*ast.File{}}
				names := sortedNames(pkg)
				r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
				for _, nm := range names {
					p2.Files[nm] = pkg.Files[nm]
				}
				root = p2
				es, _ := resolve()
				if again := describeEntries(es); again != first {
					t.Fail("the same package in another order gives other entries\n%s", diff(first, again))
				}
				root = pkg
			}
		}
	}
	if n > 1 || len(es) > 1 {
		t.Distinct(fmt.Sprint(src, n, failAt, builtin, how))
		t.Sample(src)
	}

	// Nodes that cannot hold entries.
	var others []ast.Node
	others = append(others, &ast.Text{Value: "x"}, &ast.ParsedText{}, &ast.Number{Value: "1"}, &ast.Author{Last: &ast.Text{}}, &ast.BadDecl{}, ast.Authors{})
	for _, f := range files {
		for _, e := range f.Entries {
			switch x := e.(type) {
			case *ast.AbbrevDecl:
				others = append(others, x, x.Tag)
			case *ast.PreambleDecl:
				others = append(others, x)
			case *ast.BibDecl:
				for _, tag := range x.Tags {
					others = append(others, tag)
				}
			}
		}
	}
	nd := pick(r, others)
	es, err = bibtex.New().Resolve(nd)
	t.Eval()
	if err == nil || len(es) > 0 {
		t.Fail("a %T is resolved into %d entries (error %v)", nd, len(es), err)
	}
	t.Event("node refused", 1)
}

// fileByFile tells whether es is a concatenation of the entries of all files in
// some order.
func fileByFile(es []bibtex.Entry, files []*ast.File) bool {
	var left []*ast.File
	for _, f := range files {
		if len(entriesOf(f)) > 0 {
			left = append(left, f)
		}
	}
	match := func(es []bibtex.Entry, f *ast.File) bool {
		want := entriesOf(f)
		if len(es) < len(want) {
			return false
		}
		for i, d := range want {
			key := ""
			if d.Key != nil {
				key = d.Key.Name
			}
			if es[i].Type != d.Type || es[i].Key != key {
				return false
			}
			names := map[string]bool{}
			for _, tag := range d.Tags {
				names[tag.Name] = true
				if _, ok := es[i].Tags[tag.Name]; !ok {
					return false
				}
			}
			if len(es[i].Tags) != len(names) {
				return false
			}
			for _, tag := range d.Tags {
				a := dumpExpr(tag.Value, 1, dumpOpt{strings: true})
				ok := false
				for _, tag2 := range d.Tags {
					if tag2.Name == tag.Name && dumpExpr(tag2.Value, 1, dumpOpt{strings: true}) == dumpExpr(es[i].Tags[tag.Name], 1, dumpOpt{strings: true}) {
						ok = true
					}
				}
				if !ok && a != "" {
					return false
				}
			}
		}
		return true
	}
	var rec func(es []bibtex.Entry, left []*ast.File) bool
	rec = func(es []bibtex.Entry, left []*ast.File) bool {
		if len(left) == 0 {
			return len(es) == 0
		}
		for i, f := range left {
			if match(es, f) {
				rest := append(append([]*ast.File{}, left[:i]...), left[i+1:]...)
				if rec(es[len(entriesOf(f)):], rest) {
					return true
				}
			}
		}
		return false
	}
	return rec(es, left)
}

// ---------------------------------------------------------------------------
// C21

// fileName is a name for a file, of any spelling.
func fileName(r *rand.Rand) string {
	if r.IntN(2) == 0 {
		return pick(r, []string{"a", "z", "ü ", "x%d", "refs"}) + pick(r, []string{".bib", ".bib", ".BIB", ".tex", "", ".", ".bib~", ".tar.bib"})
	}
	var b strings.Builder
	for n := 1 + r.IntN(tail(r, 12, 120)); n > 0; n-- {
		switch r.IntN(10) {
		case 0:
			b.WriteString(pick(r, []string{"é", "漢", "🎉", "\u0301", "\xff", "\x01"}))
		case 1:
			b.WriteByte(pickByte(r, " .:-_%@{}()\"'#,=\\~+*?\n\t&;|<>$!"))
		default:
			b.WriteByte(asciiText[r.IntN(len(asciiText))])
		}
	}
	s := b.String()
	if s == "." || s == ".." {
		return "..."
	}
	return s
}

func runC21(t *T) {
	r := t.R
	dir, err := os.MkdirTemp("", "pkg")
	check(err)
	defer os.RemoveAll(dir)
	mode := randMode(t) &^ mTrace
	strs := mode&mStrings != 0
	n := pick(r, []int{0, 1, 2, 3, 4, 8})
	if r.IntN(60) == 0 {
		n = dictSize(r, 100)
		t.Event("many files", 1)
	}
	var paths []string
	key := ""
	rel := r.IntN(3) == 0
	if rel {
		home, err := os.Getwd()
		check(err)
		check(os.Chdir(dir))
		defer os.Chdir(home)
		key = "relative "
		t.Event("relative names", 1)
	}
	used := map[string]bool{}
	for i := range n {
		used[filepath.Join(dir, fmt.Sprint("sub", i))] = true
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.IntN(8) == 0 {
			p := pick(r, paths)
			paths = append(paths, p)
			key += "again "
			t.Event("repeated file", 1)
			continue
		}
		if i > 0 && r.IntN(12) == 0 {
			p := pick(r, paths)
			paths = append(paths, filepath.Dir(p)+"/./"+filepath.Base(p))
			key += "alias "
			t.Event("same file under two names", 1)
			continue
		}
		p := filepath.Join(dir, fmt.Sprintf("%s%d.bib", pick(r, []string{"a", "z", "ü ", "x%d"}), i))
		if r.IntN(3) == 0 {
			q := filepath.Join(dir, fileName(r))
			if !used[q] {
				p = q
				t.Event("unusual name", 1)
			}
		}
		for used[p] {
			p += "_"
		}
		used[p] = true
		if r.IntN(12) == 0 { // in a directory of its own
			sub := filepath.Join(dir, fmt.Sprint("sub", i))
			check(os.Mkdir(sub, 0o755))
			p = filepath.Join(sub, filepath.Base(p))
		}
		if rel {
			p = strings.TrimPrefix(p, dir+"/")
			if r.IntN(4) == 0 {
				p = "./" + p
			}
		}
		paths = append(paths, p)
		src := ""
		switch r.IntN(9) {
		case 0:
			key += "missing "
			t.Event("missing file", 1)
			continue
		case 1:
			check(os.Mkdir(p, 0o755))
			key += "dir "
			t.Event("directory", 1)
			continue
		case 2:
			src = hostile(t)
		case 3:
			src = pick(r, []string{"", " \n", "% only a comment", "\uFEFF"})
			t.Event("empty file", 1)
		case 4:
			s := t.docFor()
			src = mutate(r, s)
		default:
			g := newGen(r, true)
			d := g.docN(1 + r.IntN(4))
			src = d.emit(randLayout(r))
		}
		key += src + "\x00"
		check(os.WriteFile(p, []byte(src), 0o644))
	}
	t.Input(key)
	if n == 0 {
		t.Event("empty list", 1)
	}
	given := append([]string{}, paths...)
	t.Guard(len(key) * 2)
	pkg, perr := parser.ParsePackage(paths, mode)
	t.Done()
	t.Eval()
	if pkg == nil {
		t.Fail("no package (error %v)", perr)
	}
	for i := range paths {
		if paths[i] != given[i] {
			t.Fail("the list of files is changed")
		}
	}
	good := map[string]bool{}
	var first error
	type extent struct {
		lo, hi int
		name   string
	}
	var extents []extent
	for _, p := range paths {
		fset := gotok.NewFileSet()
		t.Guard(len(key))
		f, err := parser.ParseFile(fset, p, nil, mode)
		t.Done()
		if err != nil {
			if first == nil {
				first = err
			}
			t.Event("malformed file", 1)
			for _, e := range errList(err) {
				if e.Pos.Filename != p {
					t.Fail("an error about %q names %q", p, e.Pos.Filename)
				}
			}
			if f != nil && f.Name != p {
				t.Fail("the partial tree of %q is named %q", p, f.Name)
			}
			if _, ok := pkg.Files[p]; ok {
				t.Fail("the package holds the failed file %q (%v)", p, err)
			}
			continue
		}
		got, ok := pkg.Files[p]
		if !ok || got == nil {
			t.Fail("the package lacks the file %q", p)
		}
		if got.Name != p || f.Name != p {
			t.Fail("the tree of %q is named %q in the package and %q alone", p, got.Name, f.Name)
		}
		// Positions are those of the file alone, moved by a constant.
		base := 1
		if len(f.Entries) > 0 && len(got.Entries) > 0 {
			base += int(got.Entries[0].Pos()) - int(f.Entries[0].Pos())
		} else if len(f.Comments) > 0 && len(got.Comments) > 0 {
			base += int(got.Comments[0].Pos()) - int(f.Comments[0].Pos())
		}
		o := dumpOpt{strings: strs, pos: true, raw: true, docs: true}
		want, have := dumpFile(f, 1, o)+dumpComments(f, 1), dumpFile(got, base, o)+dumpComments(got, base)
		if want != have {
			t.Fail("file %q parses differently alone (want) and in the package (got)\n%s", p, diff(want, have))
		}
		if want != "" && !good[p] {
			size := 0
			if b, err := os.ReadFile(p); err == nil {
				size = len(b)
			}
			for _, e := range extents {
				if base < e.hi && e.lo < base+size {
					t.Fail("the positions of %q and %q overlap", p, e.name)
				}
			}
			extents = append(extents, extent{base, base + size, p})
			t.Event("positions compared", 1)
		}
		good[p] = true
		t.Event("good file", 1)
	}
	if len(pkg.Files) != len(good) {
		t.Fail("the package holds %d files, want %d: %v", len(pkg.Files), len(good), sortedNames(pkg))
	}
	switch {
	case first == nil && perr != nil:
		t.Fail("no file fails but the package does: %v", perr)
	case first != nil && perr == nil:
		t.Fail("no error, but a file fails alone: %v", first)
	case first != nil && errText(first) != errText(perr):
		t.Fail("the error is not that of the first failing file\n%s", diff(errText(first), errText(perr)))
	case first != nil:
		if errors.Is(first, fs.ErrNotExist) != errors.Is(perr, fs.ErrNotExist) {
			t.Fail("the kind of the error is lost: %v", perr)
		}
		t.Event("first failure compared", 1)
	default:
		t.Event("no failure", 1)
	}
	if n > 1 {
		t.Distinct(key)
		t.Sample(key)
	}
}

// ---------------------------------------------------------------------------
// C22

const addrChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789:/.?#[]@!&'()*+,;=-_~%"

func address(t *T) string {
	r := t.R
	var b strings.Builder
	if r.IntN(4) > 0 {
		b.WriteString(pick(r, []string{"http://", "https://ex.com/~", "ftp://a_b/", "www.", "//", "doi:10.1/"}))
	}
	for n := 1 + r.IntN(40); n > 0; n-- {
		if r.IntN(3) == 0 {
			b.WriteByte(pickByte(r, "~%#_,&-'"))
		} else {
			b.WriteByte(addrChars[r.IntN(len(addrChars))])
		}
	}
	for n := r.IntN(12) - 8; n > 0; n-- {
		fmt.Fprintf(&b, "$%s$%s", pick(r, []string{"a", "1", "a~b", "%7E", "x,y", "#", "&_", ""}), pick(r, []string{"", "/", "~", "&q="}))
		t.Event("dollar signs", 1)
	}
	if r.IntN(6) == 0 {
		b.WriteString(dictFit(r, inString(addrChars+"~%#_,&-'")))
		t.Event("word of the code under test", 1)
	}
	if r.IntN(100) == 0 {
		for n := dictSize(r, 5000); n > b.Len(); {
			b.WriteString(pick(r, []string{"~,", "a%20", "/x", "#_", "a", "?q=1&"}))
		}
	}
	if r.IntN(30) == 0 {
		b.WriteString(strings.Repeat(pick(r, []string{"~,", "a%20", "/x", "#_"}), 200))
	}
	return b.String()
}

func runC22(t *T) {
	r := t.R
	addr := address(t)
	g := newGen(r, true)
	g.okAcc = true
	g.noURL = true
	d := g.docN(r.IntN(2))
	x := &mExpr{kind: 'l', quote: r.IntN(2) == 0}
	it := &mItem{name: "url", val: x}
	macro := &mPart{kind: 'u', name: pick(r, []string{"url", "href"}), s: addr, trail: g.trail()}
	before, after := "", ""
	plainURL := false
	switch r.IntN(5) {
	case 0, 1:
		if x.quote && r.IntN(5) == 0 { // as some tools write addresses
			for n := 1 + r.IntN(3); n > 0; n-- {
				addr += pick(r, []string{`\_`, `\%`, `\&`, `\$`, `\foo,`, `\bar~`, `\x\_`}) + pick(r, []string{"", "a", "/b", "~", ","})
			}
			t.Event("backslash in a quoted address", 1)
		}
		x.parts = []*mPart{{kind: 't', s: addr}}
		plainURL = true
		t.Event(map[bool]string{true: "plain in quotes", false: "plain in braces"}[x.quote], 1)
	case 2:
		x.parts = []*mPart{macro}
		t.Event(map[bool]string{true: "macro in quotes", false: "macro in braces"}[x.quote], 1)
	default:
		it.name = g.tagName(map[string]bool{"before": true, "after": true})
		g.noMacro = true
		pre, post := g.partList(0, x.quote, r.IntN(4)), g.partList(0, x.quote, r.IntN(4))
		x.parts = append(append(pre, macro), post...)
		depth := r.IntN(6) - 2
		if r.IntN(100) == 0 {
			depth = dictSize(r, 100)
		}
		for ; depth > 0; depth-- {
			x.parts = []*mPart{{kind: 'g', parts: x.parts}}
			if r.IntN(2) == 0 {
				x.parts = append([]*mPart{{kind: 't', s: "See"}, {kind: ' ', s: " "}}, x.parts...)
			}
			t.Event("macro in a group", 1)
		}
		t.Event("macro in text", 1)
	}
	if r.IntN(2) == 0 {
		it.name = recase(r, it.name)
		if strings.ToLower(it.name) != it.name {
			t.Event("upper-case tag", 1)
		}
	}
	dc := &mDecl{kind: 'b', typ: "misc", items: []*mItem{{name: "k"}}, paren: r.IntN(4) == 0}
	if r.IntN(2) == 0 {
		dc.items = append(dc.items, &mItem{name: "before", val: g.value()})
	}
	dc.items = append(dc.items, it)
	if r.IntN(2) == 0 {
		dc.items = append(dc.items, &mItem{name: "after", val: g.value()})
	}
	d.decls = append(d.decls, dc)
	d.decls = append(d.decls, g.docN(r.IntN(2)).decls...)
	k := 0
	for i := range d.decls {
		if d.decls[i] == dc {
			k = i
		}
	}
	d.emit(randLayout(r))
	_, _ = before, after
	want, must, _ := plain(x.parts)
	if !must {
		return
	}
	find := func(f *ast.File) *ast.TagStmt {
		for _, tag := range f.Entries[k].(*ast.BibDecl).Tags {
			if tag.Name == strings.ToLower(it.name) {
				return tag
			}
		}
		t.Fail("no tag %q", it.name)
		return nil
	}

	f := t.mustParse(d.src, mStrings|modeOf(r.IntN(32))&^mTrace)
	tag := find(f)
	got, err := renderText(t, tag.Value, len(d.src))
	if err != nil {
		t.Fail("the value has no plain text: %v", err)
	}
	if got != want {
		t.Fail("tag %q has the plain text %q, want %q", it.name, got, want)
	}
	if !strings.Contains(got, addr) {
		t.Fail("the address %q is not in the text %q", addr, got)
	}
	// The address is one piece of text in the tree.
	whole := 0
	eachNode(tag, func(n ast.Node) {
		if x, ok := n.(*ast.Text); ok && x.Value == addr {
			whole++
		}
	})
	if whole == 0 {
		t.Fail("the address %q is not a single text: %s", addr, dumpExpr(tag.Value, 1, dumpOpt{strings: true}))
	}
	if err := bibtex.NewRenderParsedTextResolver().Resolve(f); err != nil {
		t.Fail("rendering fails: %v", err)
	}
	t.Eval()
	if txt, ok := find(f).Value.(*ast.Text); !ok || txt.Value != want {
		t.Fail("after rendering, tag %q is %s, want %q", it.name, dumpExpr(find(f).Value, 1, dumpOpt{strings: true}), want)
	}
	if r.IntN(3) == 0 {
		b := bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))
		f, err := b.Parse(strings.NewReader(d.src))
		if err != nil {
			t.Fail("a well-formed document is rejected: %v", err)
		}
		es, err := b.Resolve(f)
		if err != nil {
			t.Fail("resolving fails: %v", err)
		}
		t.Eval()
		n := 0
		for _, dc := range d.decls[:k] {
			if dc.kind == 'b' {
				n++
			}
		}
		if txt, ok := es[n].Tags[strings.ToLower(it.name)].(*ast.Text); !ok || txt.Value != want {
			t.Fail("the resolved entry holds %s, want %q", dumpExpr(es[n].Tags[strings.ToLower(it.name)], 1, dumpOpt{strings: true}), want)
		}
		t.Event("through an instance", 1)
	}
	if r.IntN(3) == 0 && plainURL {
		f := t.mustParse(d.src, 0)
		if u, ok := find(f).Value.(*ast.UnparsedText); !ok || u.Value != addr {
			t.Fail("unparsed, tag %q is %s, want %q", it.name, dumpExpr(find(f).Value, 1, dumpOpt{}), addr)
		}
		t.Event("unparsed strings", 1)
	}
	special := false
	for c, name := range map[string]string{"~": "tilde", "%": "percent", "#": "hash", "_": "underscore", ",": "comma", "&": "ampersand"} {
		if strings.Contains(addr, c) {
			t.Event(name, 1)
			special = true
		}
	}
	if special {
		t.Distinct(d.src)
		t.Sample(d.src)
	}
}

var _ = render.Defaults

// ---------------------------------------------------------------------------
// C25

func runC25(t *T) {
	r := t.R
	var scopes []*ast.Scope
	var outers []int
	var model []map[string]*ast.Object
	for n := 1 + r.IntN(tail(r, 4, 30)); n > 0; n-- {
		o := -1
		if len(scopes) > 0 && r.IntN(5) > 0 {
			o = len(scopes) - 1 - r.IntN(1+r.IntN(len(scopes)))
		}
		var outer *ast.Scope
		if o >= 0 {
			outer = scopes[o]
		}
		s := ast.NewScope(outer)
		if s.Outer != outer {
			t.Fail("a new scope has another outer scope")
		}
		scopes, outers, model = append(scopes, s), append(outers, o), append(model, map[string]*ast.Object{})
	}
	names := []string{"a", "A", "b", "", "key", "ключ", "a b", "\x00"}
	for i := r.IntN(20); i > 0; i-- {
		names = append(names, fmt.Sprint("n", r.IntN(40)))
	}
	// Names that are nearly the same.
	for i := r.IntN(8); i > 0; i-- {
		w := pick(r, names)
		if r.IntN(3) == 0 {
			w = dictWord(r)
		}
		for _, f := range []func() string{
			func() string { return w + " " }, func() string { return " " + w }, func() string { return w + "\x00" }, func() string { return recase(r, w) },
			func() string { return w + w }, func() string { return near(r, w) }, func() string { return w[len(w)/2:] }, func() string { return w[:len(w)/2] },
			func() string { return w + "\u0301" }, func() string { return strings.Repeat(w+"x", 1+dictSize(r, 100)) }, func() string { return w + "-" }, func() string { return "_" + w },
		} {
			if r.IntN(3) == 0 {
				names = append(names, f())
			}
		}
		names = append(names, w)
	}
	ops := 1 + r.IntN(60)
	if r.IntN(300) == 0 {
		ops = dictSize(r, 5000)
		for i := r.IntN(2000); i > 0; i-- {
			names = append(names, fmt.Sprint("m", i))
		}
		t.Event("long history", 1)
	}
	hist := ""
	decls := []interface{}{nil, nil, (*ast.Scope)(nil), &ast.BibDecl{Key: &ast.Ident{Name: "key"}}, &ast.BibDecl{}, &ast.AbbrevDecl{}}
	var objs []*ast.Object
	for n := ops; n > 0; n-- {
		i := r.IntN(len(scopes))
		name := pick(r, names)
		if r.IntN(2) == 0 {
			obj := ast.NewObj(ast.ObjKind(r.IntN(3)), name)
			if obj.Name != name || obj.Decl != nil {
				t.Fail("a new object has the name %q", obj.Name)
			}
			obj.Decl = pick(r, decls)
			if len(objs) > 0 && r.IntN(6) == 0 {
				obj = pick(r, objs)
				name = obj.Name
				t.Event("same object again", 1)
			}
			objs = append(objs, obj)
			kind, decl := obj.Kind, obj.Decl
			if len(hist) < 5000 {
				hist += fmt.Sprintf("insert %d %q; ", i, name)
			}
			t.Input(hist)
			alt := scopes[i].Insert(obj)
			t.Eval()
			if have := model[i][name]; have != nil {
				if alt != have {
					t.Fail("inserting the taken name %q returns %p, want %p", name, alt, have)
				}
				t.Event("name taken", 1)
			} else {
				if alt != nil {
					t.Fail("inserting the free name %q returns an object", name)
				}
				model[i][name] = obj
				t.Event("inserted", 1)
			}
			if obj.Kind != kind || obj.Name != name || obj.Decl != decl {
				t.Fail("inserting changes the object")
			}
		} else {
			if len(hist) < 5000 {
				hist += fmt.Sprintf("look up %d %q; ", i, name)
			}
			t.Input(hist)
			got := scopes[i].Lookup(name)
			t.Eval()
			if got != model[i][name] {
				t.Fail("looking up %q in scope %d finds %p, want %p", name, i, got, model[i][name])
			}
			if got != nil {
				t.Event("found", 1)
			} else {
				t.Event("not found", 1)
				for o := outers[i]; o >= 0; o = outers[o] {
					if model[o][name] != nil {
						t.Event("only in an outer scope", 1)
					}
				}
			}
		}
		if r.IntN(10) == 0 {
			_ = scopes[i].String()
		}
	}
	for i, s := range scopes {
		for _, name := range names {
			if s.Lookup(name) != model[i][name] {
				t.Fail("at the end, scope %d holds %p under %q, want %p", i, s.Lookup(name), name, model[i][name])
			}
		}
		if len(s.Objects) != len(model[i]) {
			t.Fail("scope %d holds %d objects, want %d", i, len(s.Objects), len(model[i]))
		}
		if o := outers[i]; o >= 0 && s.Outer != scopes[o] || o < 0 && s.Outer != nil {
			t.Fail("the outer scope of scope %d changes", i)
		}
	}
	if strings.Count(hist, ";") >= 5 {
		t.Distinct(hist)
		t.Sample(hist)
	}

	// Positions of objects.
	g := newGen(r, true)
	d := g.docN(1 + r.IntN(3))
	d.emit(randLayout(r))
	f := t.mustParse(d.src, mStrings)
	for i, dc := range d.decls {
		b, ok := f.Entries[i].(*ast.BibDecl)
		if !ok {
			continue
		}
		key := (*mItem)(nil)
		for _, it := range dc.items {
			if it.val == nil {
				key = it
				break
			}
		}
		obj := ast.NewObj(ast.Entry, "k")
		obj.Decl = b
		t.Eval()
		if key == nil {
			for _, nm := range []string{"k", ""} {
				obj.Name = nm
				if p := obj.Pos(); p != gotok.NoPos {
					t.Fail("an object of an entry without a key has the position %d", p)
				}
			}
			t.Event("entry without key", 1)
			continue
		}
		obj.Name = key.name
		if p := obj.Pos(); int(p) != 1+key.pos {
			t.Fail("the object %q has the position %d, its key %d", key.name, p, 1+key.pos)
		}
		t.Event("key position", 1)
		obj.Kind = ast.ObjKind(r.IntN(3))
		others := []string{key.name + "x", "", strings.ToUpper(key.name), strings.ToLower(key.name), key.name[:len(key.name)-1], near(r, key.name), " " + key.name, key.name + " ", b.Type}
		for _, k := range b.ExtraKeys {
			others = append(others, k.Name)
		}
		for _, tag := range b.Tags {
			others = append(others, tag.Name)
		}
		for _, nm := range others {
			if nm == key.name {
				continue
			}
			obj.Name = nm
			if p := obj.Pos(); p != gotok.NoPos {
				t.Fail("the object %q, which is not the key %q, has the position %d", nm, key.name, p)
			}
			t.Event("name does not match", 1)
		}
	}
	// Declarations made by hand.
	for n := r.IntN(6); n > 0; n-- {
		name, at := pick(r, names), gotok.Pos(r.IntN(tail(r, 500, 1<<30)))
		if r.IntN(3) == 0 {
			name = anyWord(t, r.IntN(2) == 0)
		}
		b := &ast.BibDecl{Type: pick(r, names), Entry: gotok.Pos(r.IntN(100)), Key: &ast.Ident{NamePos: at, Name: name}, RBrace: gotok.Pos(r.IntN(1000))}
		for k := r.IntN(4); k > 0; k-- {
			b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{NamePos: gotok.Pos(1 + r.IntN(500)), Name: pick(r, names)})
			b.Tags = append(b.Tags, &ast.TagStmt{NamePos: gotok.Pos(1 + r.IntN(500)), Name: pick(r, names), Value: &ast.Number{Value: "1"}})
		}
		for _, nm := range []string{name, name, pick(r, names), near(r, name)} {
			obj := ast.NewObj(ast.ObjKind(r.IntN(3)), nm)
			obj.Decl = b
			want := gotok.NoPos
			if nm == name {
				want = at
			}
			if p := obj.Pos(); p != want {
				t.Fail("the object %q of an entry with the key %q at %d has the position %d", nm, name, at, p)
			}
			t.Event("declaration made by hand", 1)
		}
	}
	for _, decl := range []interface{}{nil, (*ast.Scope)(nil), ast.NewScope(nil)} {
		obj := ast.NewObj(ast.Entry, "x")
		obj.Decl = decl
		if p := obj.Pos(); p != gotok.NoPos {
			t.Fail("an object without a declaration has the position %d", p)
		}
		t.Event("no declaration", 1)
	}
}
