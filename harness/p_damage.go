package main

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// Damaging a well-formed document in a way that cannot make another
// well-formed one.

type damage struct {
	kind   string
	lo, hi int // src[lo:hi] is replaced
	with   string
	expr   *mExpr // the value that is damaged, if the damage stays inside it
}

func (d *mDecl) values() []*mExpr {
	var out []*mExpr
	if d.text != nil {
		out = append(out, d.text)
	}
	for _, it := range d.items {
		if it.val != nil {
			out = append(out, it.val)
		}
	}
	return out
}

// literals lists the string literals in x.
func (x *mExpr) literals() []*mExpr {
	switch x.kind {
	case 'l':
		return []*mExpr{x}
	case '#':
		var out []*mExpr
		for _, y := range x.xs {
			out = append(out, y.literals()...)
		}
		return out
	}
	return nil
}

// bounds lists the offsets between the parts of a literal.
func bounds(ps []*mPart, close int, deep bool) []int {
	var out []int
	for _, p := range ps {
		out = append(out, p.pos)
		if deep && p.kind == 'g' {
			out = append(out, bounds(p.parts, p.close, true)...)
		}
	}
	return append(out, close)
}

// nameWithDollar tells whether a name outside strings contains a dollar sign,
// which would begin math if a string ran over it.
func (d *mDoc) nameWithDollar() bool {
	for _, dc := range d.decls {
		for _, it := range dc.items {
			if strings.Contains(it.name, "$") || it.val != nil && it.val.identWithDollar() {
				return true
			}
		}
		if dc.text != nil && dc.text.identWithDollar() {
			return true
		}
	}
	return false
}

func (x *mExpr) identWithDollar() bool {
	for _, y := range x.xs {
		if y.identWithDollar() {
			return true
		}
	}
	return x.kind == 'i' && strings.Contains(x.s, "$")
}

// damages lists what can be broken in declaration k.
func (d *mDoc) damages(t *T, k int, strs bool) []damage {
	r := t.R
	dc := d.decls[k]
	src := d.src
	var out []damage
	add := func(kind string, lo, hi int, with string, x *mExpr) {
		out = append(out, damage{kind, lo, hi, with, x})
	}
	cut := dc.pos + 1 + r.IntN(dc.close-dc.pos)
	add("cut off", cut, len(src), "", nil)
	add("cut off", cut, len(src), "", nil)
	add("cut off before the closer", dc.close, len(src), "", nil)
	add("closer removed", dc.close, dc.close+1, "", nil)
	other := map[byte]string{'{': "(", '(': "{", '}': ")", ')': "}"}
	add("closer exchanged", dc.close, dc.close+1, other[src[dc.close]], nil)
	add("opener exchanged", dc.open, dc.open+1, other[src[dc.open]], nil)
	// In @preamble{{x}} the string's brace would become the opener, and a comment
	// or a quote in the string could hide the rest.
	if dc.text == nil || src[dc.text.start()] != '{' || !strings.ContainsAny(src[dc.open:dc.close], `%"`) {
		add("opener removed", dc.open, dc.open+1, "", nil)
	}
	add("extra closer", dc.end, dc.end, src[dc.close:dc.close+1], nil)
	add("at sign removed", dc.pos, dc.pos+1, "", nil)
	add("digit after the at sign", dc.pos+1, dc.pos+1, "9", nil)
	illegal := []string{`\`, "'", "~", "\x00", "é", "\uFEFF", "\x80", "\x7f"}
	for i := 0; i < 2; i++ {
		off := pick(r, d.tokOffs)
		if off > dc.pos && off <= dc.close {
			add("illegal character", off, off, " "+pick(r, illegal)+" ", nil)
		}
	}
	for _, off := range d.tokOffs {
		if off > dc.pos && off < dc.close && src[off] == ',' {
			add("extra comma", off, off, ",", nil)
		}
	}
	for _, it := range dc.items {
		if it.val == nil {
			continue
		}
		add("assignment removed", it.eq, it.eq+1, " ", nil)
		add("extra equals sign", it.eq, it.eq, "=", nil)
		if dc.kind == 'b' {
			add("tag name starts with a digit", it.pos, it.pos, fmt.Sprint(r.IntN(10)), nil)
			add("tag name starts with a sign", it.pos, it.pos, pick(r, []string{"-", "_", "!", "+", "."}), nil)
		}
	}
	later := func(off int, chars string) bool { return strings.ContainsAny(src[off:], chars) }
	safeNames := !d.nameWithDollar() && len(d.comments) == 0
	for _, v := range dc.values() {
		lo, hi := v.start(), v.end()
		add("value removed", lo, hi, " ", nil)
		add("extra operator", lo, lo, " # ", v)
		add("extra operator", hi, hi, " # ", v)
		if v.kind == '#' {
			i := r.IntN(len(v.xs))
			add("operand removed", v.xs[i].start(), v.xs[i].end(), " ", v)
		}
		for _, x := range v.literals() {
			tops := bounds(x.parts, x.close, false)
			all := bounds(x.parts, x.close, true)
			one := func(offs []int) int { return offs[r.IntN(len(offs))] }
			if safeNames {
				if off := one(all); !x.quote || !later(x.close+1, `"`) {
					add("extra opening brace in a string", off, off, "{", nil)
				}
				if off := one(all); !x.quote && !strings.ContainsAny(src[off:x.close], `%"`) {
					add("extra closing brace in a string", off, off, "}", nil)
				} else if x.quote && strs {
					off = one(tops)
					add("closing brace in a quoted string", off, off, "}", x)
				}
				if !x.quote {
					add("closing brace of a string removed", x.close, x.close+1, "", nil)
					if !strings.ContainsAny(x.raw, `%"`) {
						add("opening brace of a string removed", x.pos, x.pos+1, "", nil)
					}
				} else if !later(x.close+1, `"`) {
					add("closing quote removed", x.close, x.close+1, "", nil)
					if !strings.ContainsAny(x.raw, `%"`) {
						add("opening quote removed", x.pos, x.pos+1, "", nil)
					}
				}
			}
			if strs {
				off := one(all)
				bad := pick(r, []string{"$\n", "$\\$\n", "$x\n", `\9`, `\foo9 `, `\'9`, `\'{9}`, `\'{oo}`, `\'{o `, `\^ 1`, `\~{ }`, `\c9`, `\ `, "\\\n", `\é `, `\-`, "\x00", "\xff", "\uFEFF", "\xc3"})
				add("malformed construct in a string", off, off, bad, x)
			}
		}
	}
	return out
}

func init() {
	need := []string{"many damaged declarations", "hundreds of errors", "more than ten errors", "hostile input with errors", "earlier declarations compared", "damaged value alone", "declaration after others", "value followed by something"}
	for _, k := range []string{"cut off", "cut off before the closer", "closer removed", "closer exchanged", "opener exchanged", "opener removed", "extra closer", "at sign removed",
		"digit after the at sign", "illegal character", "extra comma", "assignment removed", "extra equals sign", "tag name starts with a digit", "tag name starts with a sign", "value removed",
		"extra operator", "operand removed", "extra opening brace in a string", "extra closing brace in a string", "closing brace in a quoted string", "closing brace of a string removed",
		"opening brace of a string removed", "closing quote removed", "opening quote removed", "malformed construct in a string"} {
		need = append(need, "damage: "+k)
	}
	register(&Prop{
		ID: "C04", Level: "exploration", Quick: 160000, Thorough: 3000000, MinDist: 30000,
		Rule: "a random well-formed document is damaged once (26 kinds of damage at random places, one of every kind per document) and parsed, and documents with many damaged declarations and hostile inputs are parsed; the error, its line and column, its position and the declarations before the damage are compared with the model. Non-trivial: every case; distinct by damaged source.",
		Need: need,
		Fixed: func() []string {
			return []string{
				"@b{", "@b{k", "@b{k, a", "@b{k, a =", "@b{k, a = {x", "@b{k, a = {x}", "@b{k, a = \"x", "@b{k a = 1}", "@b{k, a = }", "@b{k, a = # {x}}", "@b{k, 1a = {x}}", "@9{k}", "@{k}",
				"@b{k, a = {\\'1}}", "@b{k, a = {\\'  {o}}}", "@b{k, a = {$x}}", "@b{k, a = {x\\}}", "@string{a}", "@string{a = }", "@preamble{}", "@preamble{{x}", "@b{k)", "@b(k}", "@b{k, a 1}", "@b{k, a = {x}}}",
				"@b{k, {x} = 1}", "@b{k, a = {\\url{x}}", "@b{k, url = {x}", "@b{k, url = \"x}", "@b{k, a = {{x} {y}}", "@b{k, = {x}}", "@b{k,, a = 1}", "@b k}",
			}
		},
		RunFixed: func(t *T, in string) {
			for _, s := range []string{in, "@ok{x, y = {z}}\n" + in} {
				t.Input(s)
				for m := range 32 {
					f, err := t.parseDoc(s, modeOf(m))
					if strings.ContainsAny(in, `\$`) && modeOf(m)&mStrings == 0 && (err == nil || strings.Contains(in, `\`)) {
						continue
					}
					if err == nil {
						t.Fail("mode %d: damaged input accepted", m)
					}
					t.checkErrors(err)
					if s != in && (len(f.Entries) == 0 || !strings.HasPrefix(dumpDecl(f.Entries[0], 1, dumpOpt{}), "entry \"ok\"")) {
						t.Fail("mode %d: the declaration before the damage is lost", m)
					}
				}
			}
		},
		Run: runC04,
	})
}

// local lists the kinds of damage that are errors whatever follows them.
var local = map[string]bool{"digit after the at sign": true, "illegal character": true, "extra comma": true, "assignment removed": true, "extra equals sign": true,
	"tag name starts with a digit": true, "tag name starts with a sign": true, "value removed": true}

// ending lists those of them that parsing does not go on after.
var ending = map[string]bool{"digit after the at sign": true, "illegal character": true, "assignment removed": true}

// manyDamages checks a document with many damaged declarations.
func manyDamages(t *T) {
	var src strings.Builder
	mode := randFlags(t)&^mTrace | mStrings*parser.Mode(t.R.IntN(2))
	strs := mode&mStrings != 0
	o := dumpOpt{pos: true, raw: true, strings: strs}
	before, first, intact, want := "", -1, 0, 1+t.R.IntN(tail(t.R, 20, 60))
	if t.R.IntN(40) == 0 {
		want = pick(t.R, []int{dictSize(t.R, 1000), 100 + t.R.IntN(900)})
	}
	for n := 0; n < want; {
		g := newGen(t.R, true)
		d := g.docN(1 + t.R.IntN(2))
		l := randLayout(t.R)
		l.comments, l.bom = false, false
		d.emit(l)
		s := d.src
		if first < 0 && t.R.IntN(3) == 0 {
			o.base = -src.Len()
			before += d.dump(o)
			intact += len(d.decls)
		} else {
			k := t.R.IntN(len(d.decls))
			var ds []damage
			for _, dm := range d.damages(t, k, strs) {
				if local[dm.kind] && (want < 100 || !ending[dm.kind]) {
					ds = append(ds, dm)
				}
			}
			if len(ds) == 0 {
				continue
			}
			dm := pick(t.R, ds)
			s = s[:dm.lo] + dm.with + s[dm.hi:]
			if first < 0 {
				first = src.Len() + d.decls[k].pos
				o.base = -src.Len()
				before += (&mDoc{decls: d.decls[:k]}).dump(o)
				intact += k
			}
			n++
		}
		src.WriteString(s + "\n")
	}
	bad := src.String()
	t.Input(bad)
	f, err := t.parseDoc(bad, mode)
	if err == nil {
		t.Fail("%d damaged declarations are accepted", want)
	}
	errs := errList(err)
	t.checkErrorsIn(bad, err)
	if errs[0].Pos.Offset < first {
		t.Fail("error at offset %d, before the first damaged declaration (at %d)", errs[0].Pos.Offset, first)
	}
	if mode&mAll != 0 || len(errs) < 10 {
		if len(f.Entries) < intact {
			t.Fail("%d declarations before the damage, want %d", len(f.Entries), intact)
		}
		o.base = 0
		if got := dumpFile(&ast.File{Entries: f.Entries[:intact]}, 1, o); got != before {
			t.Fail("declarations before the damage change\n%s", diff(before, got))
		}
		t.Event("earlier declarations compared", intact)
	}
	if len(errs) > 250 {
		t.Event("hundreds of errors", 1)
	}
	t.Event("many damaged declarations", 1)
	t.MaxOf("errors of one parse", int64(len(errs)))
	if len(errs) > 10 {
		t.Event("more than ten errors", 1)
	}
	t.Distinct(bad)
}

// checkErrorsIn checks that the errors are sorted, lie in the input and have the
// line and column of their offset.
func (t *T) checkErrorsIn(src string, err error) {
	t.checkErrors(err)
	nl, done, line := 0, 0, 1
	for _, e := range errList(err) {
		off := e.Pos.Offset
		if off < 0 || off > len(src) {
			t.Fail("error at offset %d, outside the input of %d bytes: %v", off, len(src), e)
		}
		if off == len(src) {
			continue // go/token knows no line after the last byte
		}
		for ; done < off; done++ {
			if src[done] == '\n' {
				nl, line = done+1, line+1
			}
		}
		if e.Pos.Line != line || e.Pos.Column != off-nl+1 {
			t.Fail("error at offset %d is said to be at %d:%d, not %d:%d: %v", off, e.Pos.Line, e.Pos.Column, line, off-nl+1, e)
		}
	}
}

// followedValue puts something after the end of a stand-alone value.
func followedValue(t *T) {
	r := t.R
	g := newGen(r, false)
	g.okAcc = true
	x := g.value()
	d := &mDoc{decls: []*mDecl{{kind: 'p', typ: "preamble", text: x}}}
	l := randLayout(r)
	l.comments, l.bom = false, false
	d.emit(l)
	val := d.src[x.start():x.end()]
	t.Input(val)
	if _, err := t.parseExpr(val); err != nil {
		t.Fail("a value alone is rejected: %v", err)
	}
	blank := pick(r, []string{" ", "\n", "\t", "\r\n", " % c\n", "\n\n  "})
	t.Input(val + blank)
	if _, err := t.parseExpr(val + blank); err != nil {
		t.Fail("a value followed by white space or a comment is rejected: %v", err)
	}
	for range 3 {
		junk := pick(r, []string{"x", "1", ",", "}", ")", "(", "=", "{a}", "{", `"b"`, `"`, "@a", "@string", "#", "# ,", "\x00", "'", "~", "$", `\&`, "é", "a = {b}", ", b = {c}", "} junk"})
		sep := pick(r, []string{" ", "\n", "", "  ", "% c\n"})
		s := val + sep + junk
		if sep == "" && isWordByte(val[len(val)-1]) && isWordByte(junk[0]) {
			s = val + " " + junk
		}
		t.Input(s)
		y, err := t.parseExpr(s)
		if err == nil || y != nil {
			t.Fail("a value followed by %q is accepted alone", junk)
		}
		t.checkErrors(err)
		t.Event("value followed by something", 1)
		t.Distinct(s)
	}
}

// isWordByte tells whether c could prolong a name or number.
func isWordByte(c byte) bool {
	return c > ' ' && !strings.ContainsRune("#,}){=\"@%", rune(c))
}

func runC04(t *T) {
	switch t.R.IntN(20) {
	case 0:
		manyDamages(t)
		return
	case 2:
		followedValue(t)
		return
	case 1:
		src := ""
		for n := 1 + t.R.IntN(tail(t.R, 3, 40)); n > 0; n-- {
			src += hostile(t) + pick(t.R, []string{"", "\n", "\n\n", " "})
		}
		t.Input(src)
		if _, err := t.parseDoc(src, modeOf(t.R.IntN(32))&^mTrace); err != nil {
			t.checkErrorsIn(src, err)
			t.Event("hostile input with errors", 1)
			t.MaxOf("errors of one parse", int64(len(errList(err))))
			t.Distinct(src)
		}
		return
	}
	both := t.R.IntN(2) == 0
	g := newGen(t.R, both)
	d := g.docN(1 + t.R.IntN(4))
	l := randLayout(t.R)
	l.comments = t.R.IntN(4) == 0
	d.emit(l)
	mode := randFlags(t) &^ mTrace
	if !both || t.R.IntN(2) == 0 {
		mode |= mStrings
	}
	strs := mode&mStrings != 0
	k := t.R.IntN(len(d.decls))
	o := dumpOpt{pos: true, raw: true, docs: true, strings: strs}
	before := (&mDoc{decls: d.decls[:k], comments: d.comments}).dump(o)
	ds := d.damages(t, k, strs)
	seen := map[string]bool{}
	for _, i := range t.R.Perm(len(ds)) {
		dm := ds[i]
		if seen[dm.kind] {
			continue
		}
		seen[dm.kind] = true
		bad := d.src[:dm.lo] + dm.with + d.src[dm.hi:]
		t.Input(bad)
		what := fmt.Sprintf("%s (at %d, mode %d)", dm.kind, dm.lo, mode)
		f, err := t.parseDoc(bad, mode)
		if err == nil {
			t.Fail("%s: the damaged document is accepted", what)
		}
		t.checkErrorsIn(bad, err)
		errs := errList(err)
		for _, e := range errs {
			if e.Pos.Offset < d.decls[k].pos || e.Pos.Offset > len(bad) {
				t.Fail("%s: error at offset %d, before the damaged declaration (at %d) or outside the input: %v", what, e.Pos.Offset, d.decls[k].pos, e)
			}
			if e.Pos.Filename != caseFile {
				t.Fail("%s: error in file %q", what, e.Pos.Filename)
			}
		}
		if mode&mAll != 0 || len(errs) < 10 {
			if len(f.Entries) < k {
				t.Fail("%s: %d declarations before the damage, want %d", what, len(f.Entries), k)
			}
			got := dumpFile(&ast.File{Entries: f.Entries[:k]}, 1, o)
			if got != before {
				t.Fail("%s: declarations before the damage change\n%s", what, diff(before, got))
			}
			t.Event("earlier declarations compared", k)
		}
		if k > 0 {
			t.Event("declaration after others", 1)
		}
		t.Event("damage: "+dm.kind, 1)
		t.Distinct(bad)
		if t.R.IntN(8) == 0 {
			b := bibtex.New(bibtex.WithParserMode(mode))
			bf, err := b.Parse(strings.NewReader(bad))
			t.Eval()
			if err == nil || bf != nil {
				t.Fail("%s: Biber.Parse returns a tree (error %v)", what, err)
			}
		}
		if dm.expr != nil && strs {
			lo, hi := dm.expr.start(), dm.expr.end()
			s := d.src[lo:dm.lo] + dm.with + d.src[dm.hi:max(hi, dm.hi)]
			t.Input(s)
			x, err := t.parseExpr(s)
			if err == nil || x != nil {
				t.Fail("%s: the damaged value is accepted alone", what)
			}
			t.checkErrors(err)
			t.Event("damaged value alone", 1)
		}
	}
	t.Sample(d.src)
}
