package main

import (
	gotok "go/token"
	"math/bits"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
)

// Hostile inputs: random bytes, soups of tokens, damaged documents.

var soup = []string{
	"@", "@book", "@article{k,", "@string", "@preamble", "@comment", "@STRING{", "@b{", "@b(", "@9", "@é{x}",
	"{", "}", "(", ")", `"`, "=", "#", ",", "%", "% c\n", "\n", " ", "\t", "\r\n", "\r", "$", "$x$", "$\\$", "~", `\`, `\\`, `\{`, `\}`, `\&`,
	`\'o`, `\'{o}`, `\' o`, `\'{oo}`, `\'`, `\'{`, `\'{o`, `\c c`, `\c{c}`, `\cc`, `\c`, `\cite`, `\"`, `\"o`, `\.`, `\foo`, `\foo{x}`, `\9`, `\,`, `\url{http://a~b}`, `\url`, `\href{`, `\url {x}`, `\url{a b}`,
	"a", "1", "a = ", "a = {", "a = \"", "k,", "year = 2020,", "author", "and", " and ", "von", "10.1/2", "url = {", "url = \"", "URL=", "= {x}", "# {y}", "{{", "}}", "{}", `""`,
	"\x00", "\xff", "\xc3", "é", "\uFEFF", "\u2028", "🎉", "\xed\xa0\x80", "'", "0x", "-", "_", "/", "!",
}

func tokenSoup(r *rand.Rand, n int) string {
	var b strings.Builder
	if r.IntN(2) == 0 {
		b.WriteString(pick(r, []string{"@book{k, a = {", "@book{k, a = \"", "@book{k, ", "@string{a = ", "@preamble{", "@book(", "@book{url = "}))
	}
	hot := r.IntN(4) == 0
	for i := 0; i < n; i++ {
		switch {
		case hot && r.IntN(3) == 0:
			b.WriteString(dictWord(r))
		case r.IntN(400) == 0:
			b.WriteString(strings.Repeat(pick(r, soup), dictSize(r, 300)))
		default:
			b.WriteString(pick(r, soup))
		}
	}
	return b.String()
}

func randomBytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	all := r.IntN(2) == 0
	for i := range b {
		if all {
			b[i] = byte(r.IntN(256))
		} else {
			b[i] = pickByte(r, "@{}()\"=#,%\n \\$~abc019'cé\x00\xff")
		}
	}
	return string(b)
}

func mutate(r *rand.Rand, s string) string {
	for n := 1 + r.IntN(4); n > 0; n-- {
		i, j := r.IntN(len(s)+1), r.IntN(len(s)+1)
		if i > j {
			i, j = j, i
		}
		switch r.IntN(10) {
		case 9: // insert a word of the code under test
			s = s[:i] + dictWord(r) + s[i:]
		case 0: // delete
			if j-i > 8 {
				j = i + r.IntN(8)
			}
			s = s[:i] + s[j:]
		case 1, 2: // insert a token
			s = s[:i] + pick(r, soup) + s[i:]
		case 3: // replace
			if i < len(s) {
				s = s[:i] + pick(r, soup) + s[i+1:]
			}
		case 4: // duplicate
			if j-i > 30 {
				j = i + r.IntN(30)
			}
			s = s[:j] + s[i:j] + s[j:]
		case 5: // cut off
			s = s[:j]
		case 6: // random byte
			if i < len(s) {
				s = s[:i] + string([]byte{byte(r.IntN(256))}) + s[i+1:]
			}
		case 7: // exchange two bytes
			if i < j && j < len(s) {
				b := []byte(s)
				b[i], b[j] = b[j], b[i]
				s = string(b)
			}
		case 8: // cut off the start
			if r.IntN(4) == 0 {
				s = s[i:]
			}
		}
	}
	return s
}

func nest(r *rand.Rand, n int) string {
	pre := pick(r, []string{"", "@b{k, a = ", "@preamble{", "@string{a=", "@b{k, url = ", "@b{k, a = \"", "@b{k, author = {", "@b{k, a = b # "})
	op := pick(r, []string{"{", "{", "{{", "{x ", "{\\&", "{$x$", "(", "@b{", "{ #", "\"{", "a # ", "{\\url{"})
	mid := pick(r, []string{"", "x", "$", "\\", "\"", "\\'", "\x00"})
	s := pre + strings.Repeat(op, n) + mid
	if r.IntN(2) == 0 {
		s += strings.Repeat("}", n)
		if r.IntN(2) == 0 {
			s += "}}"
		}
	}
	return s
}

var fixedHostile = []string{
	"", " ", "\n", "\uFEFF", "\uFEFF\uFEFF", "\x00", "\xff", "@", "@b", "@b{", "@b(", "@b{k", "@b{k,", "@b{k,a", "@b{k,a=", "@b{k,a={", "@b{k,a=\"", "@b{k,a={x", "@b{k,a=\"x", "@b{k,a={x}", "@b{k,a=\"x\"",
	"@b{k,a=\"{", "@b{k,a=\"{x", "@b{k,a=\"{x}", "@b{k,a={$", "@b{k,a={$x", "@b{k,a={\\", "@b{k,a={\\'", "@b{k,a={\\'{", "@b{k,a={\\'{o", "@b{k,a={\\c", "@b{k,a={\\c ", "@b{k,a={\\url", "@b{k,a={\\url{", "@b{k,a={\\url{x", "@b{k,a={\\url{x y", "@b{k,a={$\\", "@b{k,url={", "@b{k,url=\"", "@b{k,url=\"x", "@b{k,url={\\url{",
	"@string", "@string{", "@string{a", "@string{a=", "@string{a=1", "@string{a=1,", "@preamble", "@preamble{", "@preamble{{", "@preamble{\"", "@preamble{x", "@comment", "@comment{", "@comment{x}", "%", "% x", "@b%", "@b{%", "@b{k,a=%", "@b{k,a={%",
	"=", "{", "}", "\"", "#", ",", "(", ")", "1", "a", "~", "$", "\\", "'", "@b{k,a={{}}}}}", "@b{k,a={x} y={z}}", "@b{k,a=1 # }", "@b{k,a= # 1}", "@b{k,=1}", "@b{,}", "@b{=}", "@b{k,a==1}", "@9{k}", "@ b{k}", "@b k}", "@b{k)", "@b(k}", "@string{1=2}", "@b{k, 1 = 2}",
	"@b{k,a={\x00}}", "@b{k,a={\xff}}", "@b{k,a={\uFEFF}}", "@b{\x00}", "@\x00b{}", "@b{k,a=\"\\\"o\"}", "@b{k,a={\\'1}}", "@b{k,a={\\foo1}}", "@b{k,a={$\n$}}", "\xef\xbb", "@b{k,a={\\\uFEFF}}",
}

// hostile makes one input.
func hostile(t *T) string {
	r := t.R
	switch r.IntN(10) {
	case 0:
		return randomBytes(r, r.IntN(60))
	case 1, 2:
		return tokenSoup(r, r.IntN(30))
	case 3:
		return pick(r, fixedHostile)
	case 4:
		return mutate(r, pick(r, fixedHostile))
	case 5:
		return nest(r, 1+r.IntN(40))
	case 6:
		s := t.docFor()
		return s[:r.IntN(len(s)+1)]
	default:
		return mutate(r, t.docFor())
	}
}

// deepConcat is an expression of many operands, whose tree is as deep.
func deepConcat(r *rand.Rand) string {
	n := 40 + r.IntN(260)
	if r.IntN(2) == 0 {
		n = min(n, dictSize(r, 300)+2)
	}
	var b strings.Builder
	b.WriteString(pick(r, []string{"@b{k, a = ", "@preamble{", "@string{a = ", "@b{k, url = {x} # ", ""}))
	one := pick(r, []string{"a", "1", `"x"`, "{y}", ""})
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(pick(r, []string{" # ", "#", "\n# "}))
		}
		if one != "" {
			b.WriteString(one)
		} else {
			b.WriteString(pick(r, []string{"a", "1", `"x"`, "{y}", `"{z}~"`}))
		}
	}
	b.WriteString(pick(r, []string{"}", "", " #", "# }", "{"}))
	return b.String()
}

// docFor makes the source of a random document.
func (t *T) docFor() string {
	g := newGen(t.R, t.R.IntN(2) == 0)
	g.urls = t.R.IntN(4) == 0
	d := g.docN(1 + t.R.IntN(3))
	return d.emit(randLayout(t.R))
}

// scanErrors counts the lexical errors in src.
func scanErrors(src string, mode parser.Mode) int {
	var s scanner.Scanner
	var m scanner.Mode
	if mode&mStrings != 0 {
		m = scanner.ScanStrings
	}
	fset := gotok.NewFileSet()
	s.Init(fset.AddFile("", -1, len(src)), []byte(src), nil, m)
	for i := 0; i < len(src)+3; i++ {
		if _, tok, _ := s.Scan(); tok.String() == "EOF" {
			break
		}
	}
	return s.ErrorCount
}

func sortedNames(p *ast.Package) []string {
	var names []string
	for n := range p.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

// campaign searches for inputs that reach new blocks of the code under test, or
// known ones a different number of times, by mutating inputs that did.
func (t *T) campaign(n int, seeds []string, judge func(src string)) {
	r := t.R
	seen := map[[2]int]bool{}
	prev := covSnapshot()
	novel := func() int {
		cur := covSnapshot()
		k := 0
		for i, c := range cur {
			if d := c - prev[i]; d != 0 && c >= prev[i] {
				key := [2]int{i, bits.Len32(d)}
				if !seen[key] {
					seen[key] = true
					k++
				}
			}
		}
		prev = cur
		return k
	}
	var corpus []string
	try := func(s string) {
		t.Input(s)
		judge(s)
		if k := novel(); k > 0 && len(s) < 1<<14 {
			corpus = append(corpus, s)
			t.Event("campaign inputs that reached something new", 1)
		}
	}
	for _, s := range seeds {
		try(s)
	}
	for i := 0; i < n; i++ {
		if len(corpus) == 0 || r.IntN(20) == 0 {
			try(hostile(t))
			continue
		}
		k := len(corpus) - 1 - r.IntN(min(len(corpus), 1+len(corpus)/2))
		if r.IntN(3) == 0 {
			k = r.IntN(len(corpus))
		}
		s := corpus[k]
		if r.IntN(6) == 0 { // splice
			o := corpus[r.IntN(len(corpus))]
			s = s[:r.IntN(len(s)+1)] + o[r.IntN(len(o)+1):]
		}
		try(mutate(r, s))
	}
}

func sortStrings(s []string) { sort.Strings(s) }
