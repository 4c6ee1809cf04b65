package main

import (
	"fmt"
	gotok "go/token"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// A family of inputs: pre + unit repeated + mid + post repeated + end.
type family struct {
	name, pre, unit, mid, post, end string
	expr                            bool // an expression, not a document
	deep                            bool // nesting: limited by the stack
}

var families = []family{
	{name: "entries", unit: "@book{key, title = {A title}, year = 2020}\n"},
	// Units with numbers, all of them different.
	{name: "different entries", unit: "@book{key\x02, title = {A title}, year = \x02}\n"},
	{name: "different types", unit: "@book\x03{k}\n"},
	{name: "different abbreviations", unit: "@string{abc\x02 = {x \x02}}\n"},
	{name: "different tags", pre: "@book{key", unit: ", title\x02 = {A title}", end: "}"},
	{name: "different keys", pre: "@book{key", unit: ", other\x02", end: "}"},
	{name: "different values", pre: "@book{key", unit: ", title = {A \x02 {title \x02}}", end: "}"},
	{name: "different names used", pre: "@book{key", unit: ", title = abc\x02 # def\x02", end: "}", deep: true},
	{name: "different comments", unit: "% comment \x02\n"},
	{name: "different words", pre: "@book{k, a = {", unit: "word\x02 ", end: "}}"},
	{name: "different macros", pre: "@book{k, a = {", unit: "\\foo\x03 ", end: "}}"},
	{name: "different maths", pre: "@book{k, a = {", unit: "$x^\x02$ ", end: "}}"},
	{name: "different addresses", pre: "@book{k, a = {", unit: "\\url{http://a/\x02} ", end: "}}"},
	{name: "different authors", pre: "@book{k, author = {A B", unit: " and Donald von Knuth\x02", end: "}}"},
	{name: "different errors", unit: "@b\x03{k\x02, a\x02 = \n"},
	{name: "entries in parentheses", unit: "@book(key, title = \"A title\")\n"},
	{name: "empty entries", unit: "@b{}"},
	{name: "abbreviations", unit: "@string{abc = {x y}}\n"},
	{name: "preambles", unit: "@preamble{\"x\" # {y}}\n"},
	{name: "tags", pre: "@book{key", unit: ", title = {A title}", end: "}"},
	{name: "url tags", pre: "@book{key", unit: ", url = {http://a/~b,c}, url = \"http://a/~b%c\"", end: "}"},
	{name: "keys", pre: "@book{key", unit: ", other", end: "}"},
	{name: "commented tags", pre: "@book{key,\n", unit: "% doc\n a = 1,\n", end: "}"},
	{name: "comments", unit: "% a comment\n"},
	{name: "comments apart", unit: "% a comment\n\n"},
	{name: "comments after tokens", pre: "@book{k,\n", unit: "a % x\n= % y\n1, % z\n", end: "}"},
	{name: "blank lines", unit: "\n", end: "@book{k}"},
	{name: "spaces", pre: "@book{k,", unit: "  \t", end: "a = 1}"},
	{name: "long comment", pre: "%", unit: "abcdefgh", end: "\n"},
	{name: "long key", pre: "@book{", unit: "abcdefgh", end: "}"},
	{name: "long type", pre: "@", unit: "abcdefgh", end: "{k}"},
	{name: "long number", pre: "@book{k, a = ", unit: "12345678", end: "}"},
	{name: "long tag name", pre: "@book{k, a", unit: "abcdefgh", end: " = 1}"},
	{name: "text", pre: "@book{k, a = {", unit: "abcdefgh", end: "}}"},
	{name: "words", pre: "@book{k, a = {", unit: "some words ", end: "}}"},
	{name: "words in quotes", pre: "@book{k, a = \"", unit: "some words ", end: "\"}"},
	{name: "lines in a string", pre: "@book{k, a = {", unit: "line\n", end: "}}"},
	{name: "white space in a string", pre: "@book{k, a = {", unit: " \n\t", end: "}}"},
	{name: "commas", pre: "@book{k, a = {", unit: ",", end: "}}"},
	{name: "ties", pre: "@book{k, a = {", unit: "~x", end: "}}"},
	{name: "maths", pre: "@book{k, a = {", unit: "$x^2$ ", end: "}}"},
	{name: "long math", pre: "@book{k, a = {$", unit: "x{y}", end: "$}}"},
	{name: "escapes", pre: "@book{k, a = {", unit: `\&`, end: "}}"},
	{name: "accents", pre: "@book{k, a = {", unit: `\'e`, end: "}}"},
	{name: "braced accents", pre: "@book{k, a = {", unit: `{\"{o}}`, end: "}}"},
	{name: "spaced accents", pre: "@book{k, a = {", unit: `\c c`, end: "}}"},
	{name: "accent with many spaces", pre: `@book{k, a = {\'`, unit: "    ", end: "e}}"},
	{name: "macros", pre: "@book{k, a = {", unit: `\foo `, end: "}}"},
	{name: "long macro", pre: `@book{k, a = {\f`, unit: "abcdefgh", end: "}}"},
	{name: "url macros", pre: "@book{k, a = {", unit: `\url{http://a/~b} `, end: "}}"},
	{name: "long url", pre: `@book{k, a = {\url{http://`, unit: "a/~b,%", end: "}}}"},
	{name: "long url tag", pre: `@book{k, url = {`, unit: "a/~b,%", end: "}}"},
	{name: "long quoted url tag", pre: `@book{k, url = "`, unit: "a/~b,%", end: "\"}"},
	{name: "groups", pre: "@book{k, a = {", unit: "{A} ", end: "}}"},
	{name: "nested groups", pre: "@book{k, a = {", unit: "{", post: "}", end: "}}", deep: true},
	{name: "nested groups with text", pre: "@book{k, a = {", unit: "{x ", post: " y}", end: "}}", deep: true},
	{name: "nested groups in quotes", pre: "@book{k, a = \"", unit: "{", post: "}", end: "\"}", deep: true},
	{name: "nested groups in a url tag", pre: "@book{k, url = {", unit: "{", post: "}", end: "}}", deep: true},
	{name: "operands", pre: "@book{k, a = x", unit: " # {y}", end: "}", deep: true},
	{name: "operands in quotes", pre: "@string{a = \"x\"", unit: " # \"y\"", end: "}", deep: true},
	{name: "url operands", pre: "@book{k, url = \"x\"", unit: " # \"y\"", end: "}", deep: true},
	{name: "authors", pre: "@book{k, author = {A B", unit: " and Donald von Knuth", end: "}}"},
	{name: "authors with commas", pre: "@book{k, author = {A B", unit: " and von Last, Jr., First", end: "}}"},
	{name: "long name", pre: "@book{k, author = {A", unit: " Bcd", end: "}}"},
	{name: "long particle", pre: "@book{k, author = {A", unit: " von", end: " B}}"},
	{name: "long last name", pre: "@book{k, author = {A", unit: " Bcd", end: ", First}}"},
	{name: "long first name", pre: "@book{k, author = {A,", unit: " Bcd", end: "}}"},
	{name: "long suffix", pre: "@book{k, author = {A,", unit: " Bcd", end: ", First}}"},
	{name: "long author word", pre: "@book{k, author = {A ", unit: `\"o{b}`, end: "}}"},
	{name: "author commas", pre: "@book{k, author = {A", unit: ", B", end: "}}"},
	{name: "nested author", pre: "@book{k, author = {", unit: "{x ", post: "}", end: "}}", deep: true},
	{name: "author spaces", pre: "@book{k, author = {A", unit: "  ~", end: "B}}"},
	{name: "expression words", pre: "{", unit: "some words ", end: "}", expr: true},
	{name: "expression operands", pre: "x", unit: " # y", end: "", expr: true, deep: true},
	{name: "expression groups", pre: "{", unit: "{a", post: "}", end: "}", expr: true, deep: true},
	// Malformed.
	{name: "openers", unit: "{", deep: true},
	{name: "openers in a string", pre: "@b{k, a = ", unit: "{", deep: true},
	{name: "openers in text", pre: "@b{k, a = {", unit: "{x", deep: true},
	{name: "closers", unit: "}"},
	{name: "closers after a string", pre: "@b{k, a = {x}", unit: "}"},
	{name: "at signs", unit: "@"},
	{name: "entry starts", unit: "@b{"},
	{name: "entry starts in parentheses", unit: "@b("},
	{name: "types", unit: "@book "},
	{name: "commas alone", unit: ","},
	{name: "commas in an entry", pre: "@b{k", unit: ",,"},
	{name: "equals", pre: "@b{k", unit: "="},
	{name: "tags without values", pre: "@b{k,", unit: "a = ,"},
	{name: "tags without names", pre: "@b{k,", unit: "= 1,"},
	{name: "values without commas", pre: "@b{k,", unit: "a = 1 "},
	{name: "digit tags", pre: "@b{k,", unit: "1 = 1,"},
	{name: "hashes", pre: "@b{k, a = ", unit: "# "},
	{name: "hashes between", pre: "@b{k, a = 1", unit: " # #"},
	{name: "quotes", unit: "\""},
	{name: "quotes in an entry", pre: "@b{k, a = ", unit: "\""},
	{name: "dollars", pre: "@b{k, a = {", unit: "$"},
	{name: "open maths", pre: "@b{k, a = {", unit: "$x}"},
	{name: "backslashes", pre: "@b{k, a = {", unit: `\`},
	{name: "bad accents", pre: "@b{k, a = {", unit: `\'`},
	{name: "bad macros", pre: "@b{k, a = {", unit: `\9`},
	{name: "open url macros", pre: "@b{k, a = {", unit: `\url{`},
	{name: "bare url macros", pre: "@b{k, a = {", unit: `\url `},
	{name: "zero bytes", unit: "\x00"},
	{name: "zero bytes in a string", pre: "@b{k, a = {", unit: "\x00"},
	{name: "bad encoding", unit: "\xff"},
	{name: "bad encoding in a string", pre: "@b{k, a = \"", unit: "\xff "},
	{name: "byte order marks", unit: "\uFEFF"},
	{name: "entries cut off", unit: "@b{k, a = \n"},
	{name: "entries with open strings", unit: "@b{k, a = {x\n"},
	{name: "entries with bad tags", unit: "@b{k, a b = {x}}\n"},
	{name: "entries with bad closers", unit: "@b{k, a = {x})\n"},
	{name: "comment entries", unit: "@comment{x}\n"},
	{name: "free text", unit: "some text\n"},
	{name: "tildes", unit: "~"},
	{name: "hyphens", unit: "- "},
	{name: "numbers", unit: "12 "},
	{name: "words alone", unit: "ab "},
}

func (f *family) make(size int) string {
	n := size / max(1, len(f.unit)+len(f.post))
	if f.deep {
		n = min(n, size/8)
	}
	n -= n % min(n+1, 60) // the same shape at every size
	if strings.ContainsAny(f.unit, "\x02\x03") {
		// \x02 is a number, \x03 one in letters, of the same length everywhere.
		var b strings.Builder
		b.WriteString(f.pre)
		for i := range n {
			num := fmt.Sprintf("%07d", i*7919%10000000)
			abc := strings.Map(func(c rune) rune { return c + 'a' - '0' }, num)
			b.WriteString(strings.NewReplacer("\x02", num, "\x03", abc).Replace(f.unit))
		}
		return b.String() + f.mid + strings.Repeat(f.post, n) + f.end
	}
	return f.pre + strings.Repeat(f.unit, n) + f.mid + strings.Repeat(f.post, n) + f.end
}

type cost struct {
	steps, alloc uint64
	cpu          time.Duration
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(1 /* RUSAGE_THREAD */, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func measure(f func()) cost {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	a, s, c := m.TotalAlloc, steps(), cpuTime()
	f()
	c2, s2 := cpuTime(), steps()
	runtime.ReadMemStats(&m)
	return cost{s2 - s, m.TotalAlloc - a, c2 - c}
}

type namedCost struct {
	name string
	c    cost
}

// costs runs every operation on src. Each measurement covers one operation.
func costs(t *T, fam *family, src string) []namedCost {
	var out []namedCost
	op := func(name string, f func()) {
		covFold()
		t.Guard(len(src))
		out = append(out, namedCost{name, measure(f)})
		t.Eval()
	}
	if fam.expr {
		var x ast.Expr
		op("parse expression", func() { x, _ = parser.ParseExpr(src) })
		if x != nil {
			op("render text", func() { _ = render.NewTextRenderer().Render(io.Discard, x) })
			op("render", func() { _ = bibtex.New().Render(io.Discard, x) })
		}
		return out
	}
	for _, m := range []scanner.Mode{0, scanner.ScanStrings} {
		op(fmt.Sprintf("tokenize, mode %d", m), func() {
			var s scanner.Scanner
			s.Init(gotok.NewFileSet().AddFile("", -1, len(src)), []byte(src), nil, m)
			for i := 0; i < len(src)+3; i++ {
				if _, tok, _ := s.Scan(); tok == token.EOF {
					break
				}
			}
		})
	}
	var f *ast.File
	for _, m := range []parser.Mode{0, mAll, mAll | mStrings, mStrings | mComments | mDeclErr} {
		op(fmt.Sprintf("parse, mode %d", m), func() { f, _ = parser.ParseFile(gotok.NewFileSet(), "", src, m) })
	}
	// A reader that gives a little at a time.
	op("parse from a reader", func() {
		_, _ = parser.ParseFile(gotok.NewFileSet(), "", &littleReader{s: src, n: max(64, len(src)/5000)}, mStrings)
	})
	walk := func(name string, f *ast.File) {
		op("walk "+name, func() {
			_ = ast.Walk(f, func(n ast.Node, _ bool) (ast.WalkStatus, error) { return ast.WalkContinue, nil })
		})
		op("render "+name, func() { _ = bibtex.New().Render(io.Discard, f) })
	}
	walk("parsed", f)
	b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author"), bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))
	op("extract authors", func() {
		for _, e := range f.Entries {
			if d, ok := e.(*ast.BibDecl); ok {
				for _, tag := range d.Tags {
					if x, ok := tag.Value.(*ast.ParsedText); ok {
						_, _ = bibtex.ExtractAuthors(x)
					}
				}
			}
		}
	})
	op("resolve", func() { _, _ = b.Resolve(f) })
	walk("resolved", f)
	return out
}

// littleReader gives n bytes at a time.
type littleReader struct {
	s string
	n int
}

func (l *littleReader) Read(p []byte) (int, error) {
	if l.s == "" {
		return 0, io.EOF
	}
	k := copy(p, l.s[:min(len(l.s), l.n)])
	l.s = l.s[k:]
	return k, nil
}

// judgeGrowth compares the cost of a family at two sizes.
func judgeGrowth(t *T, fam *family, small, large int, cpuToo bool) {
	a, b := fam.make(small), fam.make(large)
	t.Input(clip(a, 2000))
	ca, cb := costs(t, fam, a), costs(t, fam, b)
	ratio := float64(len(b)) / float64(len(a))
	byName := map[string]cost{}
	for _, c := range ca {
		byName[c.name] = c.c
	}
	for _, c := range cb {
		s, ok := byName[c.name]
		if !ok {
			continue
		}
		l := c.c
		// Both have a constant part; growing arrays and sorted errors add a little.
		// The shape of the tree of a random family may change with the size, so
		// that a walk that was short is long; what costs little anyhow is ignored.
		free, freeAlloc := 20000.0, 4e6
		if fam.name == "random family" {
			free, freeAlloc = 100*float64(len(b)), 2000*float64(len(b))
		}
		if limit := 1.6*ratio*float64(s.steps) + free; float64(l.steps) > limit {
			t.Fail("%s: %s executes %d blocks for %d bytes but %d for %d", fam.name, c.name, s.steps, len(a), l.steps, len(b))
		}
		if limit := 2.5*ratio*float64(s.alloc) + freeAlloc; float64(l.alloc) > limit {
			t.Fail("%s: %s allocates %d bytes for %d bytes of input but %d for %d", fam.name, c.name, s.alloc, len(a), l.alloc, len(b))
		}
		// Work inside the standard library shows only in processor time, which
		// is judged with a wide margin and only when it repeats.
		if cpuToo && l.cpu > 400*time.Millisecond {
			grown := func(s, l time.Duration) bool {
				return l > 400*time.Millisecond && float64(l) > 4*ratio*float64(max(s, 5*time.Millisecond))
			}
			if grown(s.cpu, l.cpu) {
				slow, fast := s.cpu, l.cpu
				for i := 0; i < 3 && grown(slow, fast); i++ {
					for _, x := range costs(t, fam, a) {
						if x.name == c.name {
							slow = max(slow, x.c.cpu)
						}
					}
					for _, x := range costs(t, fam, b) {
						if x.name == c.name {
							fast = min(fast, x.c.cpu)
						}
					}
				}
				if grown(slow, fast) {
					t.Fail("%s: %s takes %v of processor time for %d bytes but %v for %d", fam.name, c.name, slow, len(a), fast, len(b))
				}
				t.Event("processor time measured again", 1)
			}
			t.Event("growth of processor time judged", 1)
		}
		if cpuToo && l.cpu > 100*time.Millisecond && s.cpu > 5*time.Millisecond {
			t.MaxOf("percent of linear growth in processor time", int64(100*float64(l.cpu)/(ratio*float64(s.cpu))))
		}
		if s.steps > 1000 {
			t.Event("growth of steps judged", 1)
			t.MaxOf("percent of linear growth in steps", int64(100*float64(l.steps)/(ratio*float64(s.steps))))
		}
		if s.alloc > 1e5 {
			t.Event("growth of allocation judged", 1)
			t.MaxOf("percent of linear growth in allocation", int64(100*float64(l.alloc)/(ratio*float64(s.alloc))))
		}
		t.MaxOf("blocks per byte of input", int64(l.steps)/int64(len(b)))
		t.MaxOf("bytes allocated per byte of input", int64(l.alloc)/int64(len(b)))
		t.MaxOf("processor milliseconds for one operation", l.cpu.Milliseconds())
		t.MaxOf("largest input", int64(len(b)))
		t.Event("operation "+c.name, 1)
	}
	t.Distinct(fam.name + fam.pre + fam.unit + fam.post + fam.end)
	t.Sample(fmt.Sprintf("%s: %s", fam.name, clip(b, 100)))
}

// judgePackage compares the cost of packages of two sizes.
func judgePackage(t *T) {
	run := func(n int) []namedCost {
		dir, err := os.MkdirTemp("", "cost")
		check(err)
		defer os.RemoveAll(dir)
		var paths []string
		for i := range n {
			p := filepath.Join(dir, fmt.Sprintf("refs%05d.bib", i*7919%100000))
			src := fmt.Sprintf("@book{key%05d, title = {A title}}\n", i)
			if i%3 == 2 {
				src = "@book{key, title = \n"
			}
			check(os.WriteFile(p, []byte(src), 0o644))
			paths = append(paths, p)
		}
		t.Input(fmt.Sprintf("%d files", n))
		var out []namedCost
		op := func(name string, f func()) {
			covFold()
			t.Guard(200 * n)
			out = append(out, namedCost{name, measure(f)})
			t.Eval()
		}
		var pkg *ast.Package
		op("parse a package", func() { pkg, _ = parser.ParsePackage(paths, mStrings) })
		b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author"), bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver()))
		op("walk a package", func() {
			_ = ast.Walk(pkg, func(n ast.Node, _ bool) (ast.WalkStatus, error) { return ast.WalkContinue, nil })
		})
		op("render a package", func() { _ = b.Render(io.Discard, pkg) })
		op("resolve a package", func() { _, _ = b.Resolve(pkg) })
		return out
	}
	const small, large = 150, 1500
	ca, cb := run(small), run(large)
	for i, l := range cb {
		s := ca[i]
		if limit := 1.6*large/small*float64(s.c.steps) + 20000; float64(l.c.steps) > limit {
			t.Fail("to %s executes %d blocks for %d files but %d for %d", l.name, s.c.steps, small, l.c.steps, large)
		}
		if limit := 2.5*large/small*float64(s.c.alloc) + 4e6; float64(l.c.alloc) > limit {
			t.Fail("to %s allocates %d bytes for %d files but %d for %d", l.name, s.c.alloc, small, l.c.alloc, large)
		}
		t.Event("operation "+l.name, 1)
	}
	t.Distinct("files of a package")
}

func init() {
	register(&Prop{
		ID: "C20", Level: "exploration", Quick: 600, Thorough: 20000, MinDist: 400,
		Rule: "fixed families (one per repeated construct, well-formed and malformed) and families with random repeated fragments are tokenized, parsed, walked, rendered, resolved and mined for authors at growing sizes; executed blocks, allocated bytes and, with a wide margin, processor time must grow in proportion. Non-trivial: every family; distinct by its fragments.",
		Need: []string{"growth of steps judged", "growth of allocation judged", "operation extract authors", "operation resolve", "operation parse expression", "operation render parsed", "operation parse from a reader", "operation parse a package", "operation resolve a package"},
		Fixed: func() []string {
			var out []string
			for _, f := range families {
				out = append(out, f.name)
			}
			return append(out, "files of a package")
		},
		RunFixed: func(t *T, in string) {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			if in == "files of a package" {
				judgePackage(t)
				return
			}
			for i := range families {
				if families[i].name == in {
					judgeGrowth(t, &families[i], 1<<13, 1<<15, false)
					judgeGrowth(t, &families[i], 1<<17, 1<<20, true)
				}
			}
		},
		Run: func(t *T) {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			r := t.R
			f := &family{name: "random family"}
			frag := func() string {
				if r.IntN(4) == 0 {
					s := t.docFor()
					i := r.IntN(len(s) + 1)
					return s[i:min(len(s), i+1+r.IntN(40))]
				}
				s := ""
				for n := 1 + r.IntN(3); n > 0; n-- {
					s += pick(r, soup)
				}
				return s
			}
			if r.IntN(4) > 0 {
				f.pre = pick(r, []string{"@b{k, a = {", "@b{k, a = \"", "@b{k, ", "@b{k, a = ", "@string{a = ", "@preamble{", "@b{k, url = \"", "@b{k, url = {", "@b{k, author = {A", "@b{k, author = {", "%", "@"})
			}
			for f.unit == "" {
				f.unit = frag()
			}
			if r.IntN(3) == 0 {
				f.mid = frag()
			}
			if r.IntN(4) == 0 {
				f.post = pick(r, []string{"}", "}}", ")", "\"", "$", frag()})
				f.deep = true
			}
			if strings.Contains(f.unit, "{") || strings.Contains(f.unit, "#") {
				f.deep = true
			}
			if r.IntN(2) == 0 {
				f.end = pick(r, []string{"}", "}}", "\"}", ")", "$}}", "", frag()})
			}
			judgeGrowth(t, f, 1<<13, 1<<15, false)
			if r.IntN(4) == 0 {
				judgeGrowth(t, f, 1<<15, 1<<18, true)
			}
		},
	})
}
