package main

import (
	"fmt"
	gotok "go/token"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
)

// A name as it is written: four lists of words.
type mName struct {
	form   int // number of commas
	others bool
	first  []*nWord
	von    []*nWord
	last   []*nWord
	jr     []*nWord
}

type nWord struct {
	parts []*mPart
	text  string
}

var particles = []string{"von", "van", "der", "de", "la", "den", "zu", "af", "d'", "del", "dos"}
var givenWords = []string{"Donald", "E.", "J.K.", "Jean-Paul", "Ann", "X", "Élodie", "Ibn-Sina", "Ōsaka", "O'Neil", "Anderson", "Andand", "Sandy", "Ümit", "A.-B."}
var lowerWords = []string{"donald", "e.", "bell", "hooks", "émile", "a"}
var lastWords = []string{"Knuth", "Lamport", "Berners-Lee", "Poussin", "Åström", "McDonald", "Land", "And", "Others", "I", "Brand", "Çelik"}
var suffixWords = []string{"Jr.", "Sr.", "III", "II", "PhD"}

func capWord(t *T, pool []string) *nWord {
	r := t.R
	w := &nWord{}
	add := func(p *mPart) {
		w.parts = append(w.parts, p)
		s, _, _ := plain([]*mPart{p})
		w.text += s
	}
	acc := func(ls string) *mPart {
		for {
			p := &mPart{kind: '\'', acc: pick(r, accents), s: string(ls[r.IntN(len(ls))]), spell: r.IntN(4)}
			if accentTable[string(p.acc)+p.s] != 0 {
				return p
			}
		}
	}
	switch r.IntN(11) {
	case 10: // AT\&T
		add(&mPart{kind: 't', s: pick(r, []string{"AT", "R", "X", anyWord(t, true)})})
		add(&mPart{kind: '\\', s: pick(r, []string{"&", "%", "$", "{", "}", "_"})})
		if r.IntN(3) > 0 {
			add(&mPart{kind: 't', s: pick(r, []string{"T", "and", anyWord(t, false)})})
		}
		t.Event("escape in a name", 1)
	case 8: // any letters
		add(&mPart{kind: 't', s: anyWord(t, true)})
	case 9: // a group with anything in it
		if r.IntN(4) == 0 {
			add(&mPart{kind: 't', s: anyWord(t, true)})
		}
		add(nameGroup(t, 0))
		if r.IntN(4) == 0 {
			add(&mPart{kind: 't', s: pick(r, []string{"-", "s", ".", "Xy", anyWord(t, false)})})
		}
	case 0: // accent inside, M\"uller
		add(&mPart{kind: 't', s: pick(r, []string{"M", "Sch", "G", "H", "Erd"})})
		a := acc("aeiouc")
		if r.IntN(2) == 0 {
			a = &mPart{kind: 'g', parts: []*mPart{a}}
		}
		add(a)
		if r.IntN(3) > 0 {
			p := &mPart{kind: 't', s: pick(r, []string{"ller", "del", "s", "-x", "and"})}
			if canFollow(a, p) {
				add(p)
			}
		}
	case 1: // accent first
		a := acc("AEIOUC")
		if r.IntN(2) == 0 {
			a = &mPart{kind: 'g', parts: []*mPart{a}}
		}
		add(a)
		p := &mPart{kind: 't', s: pick(r, []string{"ric", "tienne", "."})}
		if canFollow(a, p) {
			add(p)
		}
	case 2: // a group
		inner := []*mPart{{kind: 't', s: pick(r, []string{"Barnes", "von", "and", "NASA", "the"})}}
		if r.IntN(2) == 0 {
			inner = append(inner, &mPart{kind: ' ', s: " "}, &mPart{kind: 't', s: pick(r, []string{"and", "of", "Noble", "Inc."})})
		}
		if r.IntN(3) == 0 {
			inner = append(inner, &mPart{kind: ','}, &mPart{kind: ' ', s: " "}, &mPart{kind: 't', s: "Ltd."})
		}
		add(&mPart{kind: 'g', parts: inner})
		if r.IntN(4) == 0 {
			add(&mPart{kind: 't', s: "-Group"})
		}
	default:
		add(&mPart{kind: 't', s: pick(r, pool)})
	}
	return w
}

const upperLetters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// anyWord is a word of random letters, or of the code under test, that starts
// with a letter of the wanted case.
func anyWord(t *T, upper bool) string {
	r := t.R
	for {
		var b strings.Builder
		if r.IntN(3) == 0 {
			b.WriteString(dictFit(r, inString(letters+".-'")))
		} else {
			n := r.IntN(tail(r, 8, 200))
			if r.IntN(100) == 0 {
				n = dictSize(r, 3000)
			}
			for b.Len() < n+1 {
				switch r.IntN(12) {
				case 0:
					b.WriteString(pick(r, []string{"é", "ö", "ñ", "ß", "ł", "ж", "λ", "ş", "漢", "É", "Ω", "ḥ", "Ạ", "Ｗ", "𐐨", "\u0301", "ا"}))
				case 1:
					b.WriteByte(pickByte(r, ".-'"))
				default:
					b.WriteByte(letters[r.IntN(len(letters))])
				}
			}
		}
		first := string(upperLetters[r.IntN(26)])
		if r.IntN(8) == 0 {
			first = pick(r, []string{"É", "Ö", "Ł", "Ω", "Ж", "Ş", "Ñ", "Ḥ", "Ạ", "Ｗ", "Ա", "𐐀", "Ꙁ"})
		}
		if !upper {
			first = strings.ToLower(first)
		}
		s := first + b.String()
		if r.IntN(3) > 0 && b.Len() > 0 {
			// the first letter changed instead of one in front
			c, k := utf8.DecodeRuneInString(b.String())
			if upper {
				c = unicode.ToUpper(c)
			} else {
				c = unicode.ToLower(c)
			}
			s = string(c) + b.String()[k:]
			if c, _ := utf8.DecodeRuneInString(s); upper != unicode.IsUpper(c) || !upper && !unicode.IsLower(c) {
				continue
			}
		}
		if s != "and" && s != "others" {
			return s
		}
	}
}

// anyCase is a word that starts with a lower-case letter or a character
// without a case.
func anyCase(t *T) *nWord {
	r := t.R
	if r.IntN(6) > 0 {
		return lowerWord(t, lowerWords)
	}
	w := ""
	for n := 1 + r.IntN(tail(r, 4, 40)); n > 0; n-- {
		w += pick(r, []string{"漢", "字", "王", "李", "다", "か", "カ", "ا", "م", "א", "ก", "अ", "𠀀", "1", "'", "."})
	}
	t.Event("word without cases", 1)
	return plainWord(w)
}

// nameGroup is a brace group of words, commas and groups.
func nameGroup(t *T, depth int) *mPart {
	r := t.R
	p := &mPart{kind: 'g'}
	for n := 1 + r.IntN(tail(r, 7, 40)); n > 0; n-- {
		k := len(p.parts)
		switch r.IntN(11) {
		case 10:
			p.parts = append(p.parts, &mPart{kind: '\\', s: pick(r, []string{"&", "%", "$", "{", "}"})})
		case 0, 1:
			p.parts = append(p.parts, &mPart{kind: ','})
		case 2, 3, 4:
			if k > 0 && n > 1 && p.parts[k-1].kind != ' ' {
				p.parts = append(p.parts, &mPart{kind: ' ', s: " "})
			}
		case 5:
			if depth < 4 {
				p.parts = append(p.parts, nameGroup(t, depth+1))
			}
		case 6:
			p.parts = append(p.parts, &mPart{kind: '\'', acc: '\'', s: string(pickByte(r, "aeiouAEIOU")), spell: r.IntN(2)})
		default:
			if k == 0 || p.parts[k-1].kind != 't' {
				p.parts = append(p.parts, &mPart{kind: 't', s: pick(r, []string{"and", "von", "Jr.", "others", "Inc", anyWord(t, true), anyWord(t, false)})})
			}
		}
	}
	if k := len(p.parts); k == 0 || p.parts[k-1].kind == ' ' {
		p.parts = append(p.parts, &mPart{kind: 't', s: anyWord(t, r.IntN(2) == 0)})
	}
	return p
}

func plainWord(s string) *nWord { return &nWord{parts: []*mPart{{kind: 't', s: s}}, text: s} }

// lowerWord is a word that starts with lower-case text and may go on with an
// accent, a group or an escaped character.
func lowerWord(t *T, pool []string) *nWord {
	r := t.R
	s := pick(r, pool)
	if r.IntN(4) == 0 {
		s = anyWord(t, false)
	}
	w := plainWord(s)
	if r.IntN(6) > 0 {
		return w
	}
	add := func(p *mPart) {
		w.parts = append(w.parts, p)
		x, _, _ := plain([]*mPart{p})
		w.text += x
	}
	var a *mPart
	switch r.IntN(4) {
	case 0:
		a = nameGroup(t, 3)
	case 1:
		a = &mPart{kind: '\\', s: pick(r, []string{"&", "%", "$", "{", "}"})}
	default:
		a = &mPart{kind: '\'', acc: pick(r, []rune{'\'', '`', '^', '"'}), s: string(pickByte(r, "aeiouAEIOU")), spell: r.IntN(4)}
		if r.IntN(3) == 0 {
			a = &mPart{kind: 'g', parts: []*mPart{a}}
		}
	}
	add(a)
	if p := (&mPart{kind: 't', s: pick(r, []string{"l", "La", "and", "-s", "."})}); r.IntN(2) == 0 && canFollow(a, p) {
		add(p)
	}
	t.Event("lower-case word of several pieces", 1)
	return w
}

func words(t *T, n int, pool []string) []*nWord {
	var out []*nWord
	for ; n > 0; n-- {
		out = append(out, capWord(t, pool))
	}
	return out
}

func randName(t *T) *mName {
	r := t.R
	n := &mName{form: r.IntN(3)}
	for k := r.IntN(tail(r, 5, 40)) - 1; k > 0; k-- {
		n.von = append(n.von, lowerWord(t, particles))
	}
	if r.IntN(2) == 0 {
		n.von = nil
	}
	n.last = words(t, 1, lastWords)
	if n.form > 0 || len(n.von) > 0 {
		n.last = words(t, 1+r.IntN(tail(r, 3, 40)), lastWords)
	}
	lowerLast := r.IntN(8) == 0 // the last word is the family name in any letter case
	if lowerLast && n.form > 0 {
		n.last = []*nWord{anyCase(t)}
	}
	nf := r.IntN(tail(r, 4, 40))
	if n.form == 0 && len(n.von) > 0 && nf == 0 {
		nf = 1
	}
	n.first = words(t, nf, givenWords)
	if lowerLast && n.form == 0 && nf > 0 {
		n.last = []*nWord{anyCase(t)}
	}
	if n.form > 0 && r.IntN(3) == 0 {
		n.first = nil
		for k := 1 + r.IntN(2); k > 0; k-- {
			n.first = append(n.first, anyCase(t))
		}
		if r.IntN(2) == 0 {
			n.first = append(n.first, words(t, 1, givenWords)...)
		}
	}
	if n.form == 0 && len(n.von) == 0 && n.last[0].text == "others" {
		n.last[0] = plainWord("Other")
	}
	if n.form == 2 {
		for k := 1 + r.IntN(2); k > 0; k-- {
			if r.IntN(3) == 0 {
				n.jr = append(n.jr, words(t, 1, suffixWords)...)
			} else {
				n.jr = append(n.jr, plainWord(pick(r, suffixWords)))
			}
		}
	}
	return n
}

func join(ws []*nWord) string {
	var ss []string
	for _, w := range ws {
		ss = append(ss, w.text)
	}
	return strings.Join(ss, " ")
}

func space(t *T) *mPart {
	return &mPart{kind: ' ', s: pick(t.R, stringSpaces)}
}

func (n *mName) parts(t *T) []*mPart {
	var out []*mPart
	put := func(ws []*nWord) {
		for _, w := range ws {
			if k := len(out); k > 0 && out[k-1].kind != ' ' && out[k-1].kind != '~' && out[k-1].kind != ',' {
				if t.R.IntN(8) == 0 {
					out = append(out, &mPart{kind: '~'})
				} else {
					out = append(out, space(t))
				}
			}
			out = append(out, w.parts...)
		}
	}
	gap := func() {
		for n := 1 + t.R.IntN(tail(t.R, 2, 6)); n > 0; n-- {
			if k := len(out); t.R.IntN(6) == 0 || out[k-1].kind == ' ' {
				out = append(out, &mPart{kind: '~'})
			} else {
				out = append(out, space(t))
			}
		}
	}
	comma := func() {
		if t.R.IntN(6) == 0 {
			gap()
		}
		out = append(out, &mPart{kind: ','})
		if t.R.IntN(4) > 0 {
			gap()
		}
	}
	switch {
	case n.others:
		put([]*nWord{plainWord("others")})
	case n.form == 0:
		put(n.first)
		put(n.von)
		put(n.last)
	case n.form == 1:
		put(n.von)
		put(n.last)
		comma()
		put(n.first)
	default:
		put(n.von)
		put(n.last)
		comma()
		put(n.jr)
		comma()
		put(n.first)
	}
	for k := len(out); out[k-1].kind == ' ' || out[k-1].kind == '~'; k = len(out) {
		out = out[:k-1]
	}
	return out
}

// nameList makes a list of names and its parts.
func nameList(t *T) ([]*mName, []*mPart) {
	var names []*mName
	var ps []*mPart
	if t.R.IntN(4) == 0 {
		ps = append(ps, space(t))
	}
	n := 1 + t.R.IntN(tail(t.R, 4, 20))
	if t.R.IntN(1000) == 0 {
		n = dictSize(t.R, 300)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			ps = append(ps, space(t), &mPart{kind: 't', s: "and"}, space(t))
		}
		nm := randName(t)
		if i == n-1 && t.R.IntN(6) == 0 {
			nm = &mName{others: true}
		}
		names = append(names, nm)
		ps = append(ps, nm.parts(t)...)
	}
	if t.R.IntN(4) == 0 {
		ps = append(ps, space(t))
	}
	return names, ps
}

func namesLiteral(t *T, quote bool) *mExpr {
	_, ps := nameList(t)
	return &mExpr{kind: 'l', quote: quote, parts: ps}
}

func textOf(x ast.Expr) string {
	if s, ok := x.(*ast.Text); ok && s != nil {
		return s.Value
	}
	return fmt.Sprintf("<%T>", x)
}

func init() {
	register(&Prop{
		ID: "C14", Level: "exploration", Quick: 1200000, Thorough: 20000000, MinDist: 20000,
		Rule: "random lists of names in the three forms are written with random white space and extracted; the four parts of every author are compared with the words they were written from. Non-trivial: at least two words; distinct by source text.",
		Need: []string{"form 0", "form 1", "form 2", "others", "with particle", "lower-case given name", "several last words", "accent in a name", "escape in a name", "group in a name", "lower-case word of several pieces", "empty name refused", "some parts of an author", "through the resolver", "word without cases", "text in pieces", "hyphen", "positions moved"},
		Fixed: func() []string {
			return []string{"{}", "{ }", "{and}", "{ and }", "{A and }", "{and B}", "{A and and B}", "{A and  and B and C}", "\"\"", "{,}", "{ , }", "{A B and ,}", "{~}"}
		},
		RunFixed: func(t *T, in string) {
			x, err := t.parseExpr(in)
			if err != nil {
				t.Fail("a well-formed literal is rejected: %v", err)
			}
			if as, err := bibtex.ExtractAuthors(x.(*ast.ParsedText)); err == nil {
				t.Fail("an empty name is accepted: %d authors", len(as))
			}
			t.Event("empty name refused", 1)
		},
		Run: runC14,
	})

	register(&Prop{
		ID: "C15", Level: "exploration", Quick: 1200000, Thorough: 20000000, MinDist: 20000,
		Rule: "arbitrary literals, sprinkled with separators and commas, are handed to the extractor; the number of authors and the text of every name are compared with the model, and documents go through the resolver. Non-trivial: at least two parts; distinct by source text.",
		Need: []string{"extracted", "refused for an accent", "refused for an empty name", "several names", "name with macro", "name with math", "name with escape", "tags compared", "tag with a similar name", "tags of other names", "resolver refused"},
		Run:  runC15,
	})
}

// emptyNames adds empty names to a list, which is then refused.
func emptyNames(t *T) {
	r := t.R
	_, ps := nameList(t)
	for len(ps) > 0 && (ps[len(ps)-1].kind == ' ' || ps[len(ps)-1].kind == '~') {
		ps = ps[:len(ps)-1]
	}
	for len(ps) > 0 && (ps[0].kind == ' ' || ps[0].kind == '~') {
		ps = ps[1:]
	}
	and := func() *mPart { return &mPart{kind: 't', s: "and"} }
	var at []int // where names begin, behind white space
	for i, p := range ps {
		if i > 0 && p.kind == 't' && p.s == "and" && ps[i-1].kind == ' ' && i+1 < len(ps) && ps[i+1].kind == ' ' {
			at = append(at, i+2)
		}
	}
	var out []*mPart
	switch k := r.IntN(2 + len(at)); k {
	case 0:
		out = append([]*mPart{and(), space(t)}, ps...)
	case 1:
		out = append(append(out, ps...), space(t), and())
		if r.IntN(2) == 0 {
			out = append(out, space(t))
		}
	default:
		i := at[k-2]
		out = append(append(out, ps[:i]...), and(), space(t))
		out = append(out, ps[i:]...)
	}
	v := t.parseLiteral(&mExpr{kind: 'l', parts: out, quote: r.IntN(3) == 0})
	t.Guard(len(t.input))
	as, err := bibtex.ExtractAuthors(v)
	t.Done()
	t.Eval()
	if err == nil {
		t.Fail("an empty name is accepted: %d authors", len(as))
	}
	t.Event("empty name refused", 1)
}

// splitTexts cuts the texts of a value into pieces: text, hyphens, text.
func splitTexts(t *T, x ast.Expr) {
	r := t.R
	p, ok := x.(*ast.ParsedText)
	if !ok {
		return
	}
	var out []ast.Expr
	for _, v := range p.Values {
		splitTexts(t, v)
		s, ok := v.(*ast.Text)
		if !ok || s.Value == "and" || s.Value == "others" || r.IntN(3) == 0 {
			out = append(out, v)
			continue
		}
		rest := s.Value
		for rest != "" {
			_, n := utf8.DecodeRuneInString(rest)
			if rest[0] == '-' && rest != s.Value {
				out = append(out, &ast.TextHyphen{ValuePos: s.ValuePos})
				rest = rest[1:]
				t.Event("hyphen", 1)
				continue
			}
			if k := strings.IndexByte(rest[n:], '-'); k >= 0 && r.IntN(4) > 0 {
				n += k
			} else if r.IntN(4) > 0 {
				n = len(rest)
			}
			if w := rest[:n]; w == "and" || w == "others" {
				n = len(rest)
			}
			out = append(out, &ast.Text{ValuePos: s.ValuePos, Value: rest[:n]})
			rest = rest[n:]
		}
	}
	p.Values = out
}

// movePos gives the nodes of a value other positions.
func movePos(t *T, root ast.Node) {
	most := pick(t.R, []int{1, 8, 60, 1000, 1 << 20})
	eachNode(root, func(n ast.Node) {
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Pointer {
			return
		}
		v = v.Elem()
		for i := range v.NumField() {
			if f := v.Field(i); f.Type() == reflect.TypeFor[gotok.Pos]() && f.Int() != 0 {
				f.SetInt(int64(1 + t.R.IntN(most)))
			}
		}
	})
	t.Event("positions moved", 1)
}

func runC14(t *T) {
	if t.R.IntN(10) == 0 {
		emptyNames(t)
		return
	}
	names, ps := nameList(t)
	x := &mExpr{kind: 'l', parts: ps, quote: t.R.IntN(3) == 0}
	v := t.parseLiteral(x)
	if t.R.IntN(8) == 0 {
		splitTexts(t, v)
		t.Event("text in pieces", 1)
	}
	if t.R.IntN(8) == 0 {
		movePos(t, v)
	}
	t.Guard(len(t.input))
	var as ast.Authors
	var err error
	if t.R.IntN(4) == 0 {
		tag := &ast.TagStmt{Name: "author", Value: v}
		err = bibtex.NewAuthorResolver("editor", "author").Resolve(&ast.BibDecl{Tags: []*ast.TagStmt{tag}})
		as, _ = tag.Value.(ast.Authors)
		t.Event("through the resolver", 1)
	} else {
		as, err = bibtex.ExtractAuthors(v)
	}
	t.Done()
	t.Eval()
	if err != nil {
		t.Fail("names are refused: %v", err)
	}
	if len(as) != len(names) {
		t.Fail("%d authors, want %d", len(as), len(names))
	}
	for i, n := range names {
		a := as[i]
		want := [4]string{join(n.first), join(n.von), join(n.last), join(n.jr)}
		if n.others {
			want = [4]string{"", "", "others", ""}
			t.Event("others", 1)
		} else {
			t.Event(fmt.Sprintf("form %d", n.form), 1)
		}
		got := [4]string{textOf(a.First), textOf(a.Prefix), textOf(a.Last), textOf(a.Suffix)}
		if got != want {
			t.Fail("author %d: first, prefix, last, suffix are %q, want %q", i, got, want)
		}
		// A group {others} cannot be told from the word once it is extracted.
		if a.IsOthers() != (want == [4]string{"", "", "others", ""}) {
			t.Fail("author %d (%q): recognised as others: %v", i, got, a.IsOthers())
		}
		if a.IsEmpty() {
			t.Fail("author %d (%q) counts as empty", i, got)
		}
		// Some of its parts alone: only an author without any part is empty.
		sub, some := got, got != [4]string{}
		if t.R.IntN(4) == 0 {
			some = false
			for k := range sub {
				if t.R.IntN(2) == 0 {
					sub[k] = ""
				}
				some = some || sub[k] != ""
			}
			at := func() gotok.Pos { return gotok.Pos(t.R.IntN(3) * t.R.IntN(1000)) }
			b := &ast.Author{From: at(), To: at(), First: &ast.Text{ValuePos: at(), Value: sub[0]}, Prefix: &ast.Text{ValuePos: at(), Value: sub[1]}, Last: &ast.Text{ValuePos: at(), Value: sub[2]}, Suffix: &ast.Text{ValuePos: at(), Value: sub[3]}}
			if b.IsEmpty() == some {
				t.Fail("an author with the parts %q counts as empty: %v", sub, b.IsEmpty())
			}
			if b.IsOthers() != (sub == [4]string{"", "", "others", ""}) {
				t.Fail("an author with the parts %q counts as others: %v", sub, b.IsOthers())
			}
			t.Event("some parts of an author", 1)
		}
		if len(n.von) > 0 {
			t.Event("with particle", 1)
		}
		if len(n.last) > 1 {
			t.Event("several last words", 1)
		}
		if len(n.first) > 0 && strings.ToUpper(n.first[0].text[:1]) != n.first[0].text[:1] {
			t.Event("lower-case given name", 1)
		}
		for _, w := range append(append([]*nWord{}, n.first...), n.last...) {
			for _, p := range w.parts {
				switch p.kind {
				case '\'':
					t.Event("accent in a name", 1)
				case 'g':
					t.Event("group in a name", 1)
				}
			}
		}
	}
	t.Distinct(t.input)
	t.Sample(t.input)
}

// authorNoise makes an arbitrary value that looks a little like a list of names.
func authorNoise(t *T) *mExpr {
	g := newGen(t.R, false)
	g.okAcc = t.R.IntN(3) > 0
	x := &mExpr{kind: 'l', quote: t.R.IntN(2) == 0}
	n := t.R.IntN(14)
	for len(x.parts) < n {
		var prev *mPart
		if k := len(x.parts); k > 0 {
			prev = x.parts[k-1]
		}
		var p *mPart
		switch t.R.IntN(8) {
		case 0:
			p = &mPart{kind: 't', s: "and"}
		case 1, 2:
			p = space(t)
		case 3:
			p = &mPart{kind: ','}
		case 4:
			p = &mPart{kind: 't', s: pick(t.R, pick(t.R, [][]string{particles, givenWords, lowerWords, lastWords, suffixWords}))}
		default:
			p = g.part(0, x.quote, !x.quote)
		}
		if p != nil && canFollow(prev, p) {
			x.parts = append(x.parts, p)
		}
	}
	return x
}

// splitNames splits parts at the separator word.
func splitNames(ps []*mPart) [][]*mPart {
	isEnd := func(i int) bool {
		return i < 0 || i >= len(ps) || ps[i].kind == ' ' || ps[i].kind == '~' || ps[i].kind == ','
	}
	var out [][]*mPart
	var cur []*mPart
	for i, p := range ps {
		if p.kind == 't' && p.s == "and" && isEnd(i-1) && isEnd(i+1) {
			out = append(out, cur)
			cur = nil
			continue
		}
		cur = append(cur, p)
	}
	return append(out, cur)
}

func checkConservation(t *T, x *mExpr, as ast.Authors, err error) {
	names := splitNames(x.parts)
	_, must, can := plain(x.parts)
	definitelyEmpty, maybeEmpty := false, false
	for _, n := range names {
		empty, commas := true, 0
		for _, p := range n {
			switch p.kind {
			case ' ', '~':
			case ',':
				commas++
			default:
				empty = false
			}
		}
		// With three commas or more the extra ones are text of the first name.
		definitelyEmpty = definitelyEmpty || empty && commas < 3
		s, _, _ := plain(n)
		maybeEmpty = maybeEmpty || strings.ReplaceAll(stripSpace(s), ",", "") == ""
	}
	if err != nil {
		switch {
		case !must:
			t.Event("refused for an accent", 1)
		case maybeEmpty:
			t.Event("refused for an empty name", 1)
		default:
			t.Fail("names are refused: %v", err)
		}
		return
	}
	if !can {
		t.Fail("an accent that has no composed character is accepted")
	}
	if definitelyEmpty {
		t.Fail("an empty name is accepted")
	}
	if len(as) != len(names) {
		t.Fail("%d authors, want %d", len(as), len(names))
	}
	if len(names) > 1 {
		t.Event("several names", 1)
	}
	for i, n := range names {
		a := as[i]
		first, von, last, jr := textOf(a.First), textOf(a.Prefix), textOf(a.Last), textOf(a.Suffix)
		var commas []int
		for j, p := range n {
			switch p.kind {
			case ',':
				commas = append(commas, j)
			case 'm', 'u':
				t.Event("name with macro", 1)
			case '$':
				t.Event("name with math", 1)
			case '\\':
				t.Event("name with escape", 1)
			}
		}
		text := func(ps []*mPart) string { s, _, _ := plain(ps); return stripSpace(s) }
		eq := func(what, got string, ps []*mPart) {
			if g, w := stripSpace(got), text(ps); g != w {
				t.Fail("author %d (first %q, prefix %q, last %q, suffix %q): %s holds %q, the source %q", i, first, von, last, jr, what, g, w)
			}
		}
		switch len(commas) {
		case 0:
			eq("the name", first+von+last+jr, n)
		case 1:
			eq("the last name", von+last+jr, n[:commas[0]])
			eq("the first name", first, n[commas[0]+1:])
		default:
			eq("the last name", von+last, n[:commas[0]])
			eq("the suffix", jr, n[commas[0]+1:commas[1]])
			eq("the first name", first, n[commas[1]+1:])
		}
	}
	t.Event("extracted", 1)
}

func runC15(t *T) {
	if t.R.IntN(4) > 0 {
		x := authorNoise(t)
		v := t.parseLiteral(x)
		before := dumpExpr(v, 1, dumpOpt{strings: true, pos: true})
		t.Guard(len(t.input))
		as, err := bibtex.ExtractAuthors(v)
		t.Done()
		t.Eval()
		checkConservation(t, x, as, err)
		if after := dumpExpr(v, 1, dumpOpt{strings: true, pos: true}); before != after {
			t.Fail("extraction changes the value\n%s", diff(before, after))
		}
		if len(x.parts) > 1 {
			t.Distinct(t.input)
			t.Sample(t.input)
		}
		return
	}
	// Documents.
	g := newGen(t.R, false)
	g.okAcc = true
	d := g.docN(1 + t.R.IntN(3))
	args := []string{"author", "editor"}
	if t.R.IntN(4) == 0 { // tags of other names
		args = args[:t.R.IntN(3)]
		for n := 1 + t.R.IntN(tail(t.R, 3, 20)); n > 0; n-- {
			args = append(args, pick(t.R, []string{"translator", "bookauthor", "holder", "commentator", "shortauthor", "x", "a-b", "title", "note", "editora", strings.Repeat("name", 1+t.R.IntN(20)), fmt.Sprintf("tag%d", t.R.IntN(1000))}))
		}
		t.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		t.Event("tags of other names", 1)
	}
	targets := map[string]bool{}
	for _, a := range args {
		targets[a] = true
	}
	if t.R.IntN(4) == 0 || len(args) != 2 { // more tags to resolve
		for _, dc := range d.decls {
			for _, it := range dc.items {
				if it.val != nil && dc.kind == 'b' && t.R.IntN(3) == 0 {
					it.name = pick(t.R, args)
					if t.R.IntN(3) == 0 {
						it.name = recase(t.R, it.name)
					}
				}
			}
		}
	}
	for _, dc := range d.decls {
		for _, it := range dc.items {
			if it.val != nil && targets[strings.ToLower(it.name)] {
				if t.R.IntN(10) > 0 || it.val.kind == 'l' {
					it.val = namesLiteral(t, t.R.IntN(3) == 0)
					if t.R.IntN(8) == 0 {
						it.val = authorNoise(t)
					}
				}
			}
		}
		// Tags whose names are much like the resolver's.
		for _, it := range dc.items {
			if it.val == nil || targets[strings.ToLower(it.name)] || t.R.IntN(5) > 0 {
				continue
			}
			n := pick(t.R, []string{"author", "editor", "Author", "EDITOR"})
			x := pick(t.R, []string{"s", "2", "+an", "+", "-x", "_", ".", ":role", "type", "x", "a", "!", "or", "r"})
			switch t.R.IntN(5) {
			case 0:
				n = x + n
				if !isLetterByte(n[0]) {
					n = "x" + n
				}
			case 1:
				n = n[:len(n)-1]
			case 2:
				n = n[1:]
			case 3:
				n = n[:3] + x + n[3:]
			default:
				n += x
			}
			it.name = n
			if t.R.IntN(3) > 0 {
				it.val = namesLiteral(t, t.R.IntN(3) == 0)
			}
			t.Event("tag with a similar name", 1)
		}
		if dc.kind == 'a' && t.R.IntN(3) == 0 {
			dc.items[0].name = "author"
		}
	}
	d.emit(randLayout(t.R))
	f, ref := t.mustParse(d.src, mStrings), t.mustParse(d.src, mStrings)
	if t.R.IntN(4) == 0 {
		scatterSame(t, f, ref)
	}
	t.Guard(len(d.src))
	err := bibtex.NewAuthorResolver(args...).Resolve(f)
	t.Done()
	t.Eval()
	must := true
	for i, dc := range d.decls {
		x, ok := f.Entries[i].(*ast.BibDecl)
		if !ok {
			continue
		}
		var items []*mItem
		for _, it := range dc.items {
			if it.val != nil {
				items = append(items, it)
			}
		}
		for j, it := range items {
			if !targets[strings.ToLower(it.name)] {
				continue
			}
			as, ok := x.Tags[j].Value.(ast.Authors)
			if ok {
				if it.val.kind != 'l' {
					t.Fail("tag %q, which is no string, becomes a list of authors", it.name)
				}
				checkConservation(t, it.val, as, nil)
				ref.Entries[i].(*ast.BibDecl).Tags[j].Value = as
			} else if err == nil {
				t.Fail("tag %q is not replaced: %T", it.name, x.Tags[j].Value)
			}
			if it.val.kind != 'l' {
				must = false
				continue
			}
			if _, m, _ := plain(it.val.parts); !m {
				must = false
			}
			for _, n := range splitNames(it.val.parts) {
				if s, _, _ := plain(n); strings.ReplaceAll(stripSpace(s), ",", "") == "" {
					must = false
				}
			}
		}
	}
	if err != nil && must {
		t.Fail("the author resolver fails: %v", err)
	}
	if err != nil {
		t.Event("resolver refused", 1)
	}
	if a, b := fullDump(ref, true), fullDump(f, true); a != b {
		t.Fail("the author resolver changes something else\n%s", diff(a, b))
	}
	t.Event("tags compared", 1)
	t.Distinct(d.src)
}
