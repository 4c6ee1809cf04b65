package main

import (
	goast "go/ast"
	"go/constant"
	goparser "go/parser"
	gotok "go/token"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// The workload dictionary: the literals of the code under test, and the usual
// powers of two. They steer the generators (which names, words and sizes they
// use now and then), never a verdict.

type dictionary struct {
	words []string // strings that the code compares with, and their parts
	cold  []string // other strings
	runes []rune
	sizes []int
}

var dict = sync.OnceValue(func() *dictionary {
	d := &dictionary{}
	src := os.Getenv("VERIF_SRC")
	hot, cold, runes, sizes := map[string]bool{}, map[string]bool{}, map[rune]bool{}, map[int]bool{}
	for i := 2; i <= 12; i++ {
		sizes[1<<i] = true
	}
	for _, n := range []int{5, 10, 20, 50, 72, 80, 100, 120, 1000} {
		sizes[n] = true
	}
	if src != "" {
		_ = filepath.WalkDir(src, func(p string, e os.DirEntry, err error) error {
			if err != nil {
				return nil
			}
			n := e.Name()
			if e.IsDir() && p != src && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			if !e.IsDir() && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
				if f, err := goparser.ParseFile(gotok.NewFileSet(), p, nil, 0); err == nil {
					mine(f, hot, cold, runes, sizes)
				}
			}
			return nil
		})
	}
	for w := range hot {
		d.words = append(d.words, w)
	}
	for w := range cold {
		if !hot[w] {
			d.cold = append(d.cold, w)
		}
	}
	for r := range runes {
		d.runes = append(d.runes, r)
	}
	for n := range sizes {
		d.sizes = append(d.sizes, n)
	}
	sort.Strings(d.words)
	sort.Strings(d.cold)
	sort.Slice(d.runes, func(i, j int) bool { return d.runes[i] < d.runes[j] })
	sort.Ints(d.sizes)
	if len(d.words) == 0 {
		d.words = []string{"author"}
	}
	if len(d.cold) == 0 {
		d.cold = d.words
	}
	if len(d.runes) == 0 {
		d.runes = []rune{'a'}
	}
	return d
})

func mine(f *goast.File, hot, cold map[string]bool, runes map[rune]bool, sizes map[int]bool) {
	// the value of a constant expression made of literals
	var eval func(x goast.Expr) constant.Value
	eval = func(x goast.Expr) constant.Value {
		switch x := x.(type) {
		case *goast.BasicLit:
			return constant.MakeFromLiteral(x.Value, x.Kind, 0)
		case *goast.ParenExpr:
			return eval(x.X)
		case *goast.BinaryExpr:
			a, b := eval(x.X), eval(x.Y)
			if a == nil || b == nil || a.Kind() != b.Kind() {
				return nil
			}
			switch {
			case a.Kind() == constant.Int && (x.Op == gotok.SHL || x.Op == gotok.SHR):
				if n, ok := constant.Uint64Val(b); ok && n < 32 {
					return constant.Shift(a, x.Op, uint(n))
				}
			case a.Kind() == constant.Int && (x.Op == gotok.ADD || x.Op == gotok.SUB || x.Op == gotok.MUL):
				return constant.BinaryOp(a, x.Op, b)
			case a.Kind() == constant.String && x.Op == gotok.ADD:
				return constant.BinaryOp(a, x.Op, b)
			}
		}
		return nil
	}
	str := func(s string, m map[string]bool) {
		if len(s) > 0 && len(s) < 120 && utf8.ValidString(s) {
			m[s] = true
			if len(s) < 40 {
				for _, w := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\n\"'%,:;(){}[]", r) }) {
					if len(w) > 1 {
						m[w] = true
					}
				}
			}
		}
	}
	note := func(x goast.Expr, m map[string]bool) {
		switch v := eval(x); {
		case v == nil:
		case v.Kind() == constant.String:
			str(constant.StringVal(v), m)
		case v.Kind() == constant.Int:
			n, ok := constant.Int64Val(v)
			if l, lit := x.(*goast.BasicLit); lit && l.Kind == gotok.CHAR {
				if r, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
					runes[r] = true
				}
			} else if ok && n > 1 && n <= 5000 {
				sizes[int(n)] = true
			}
		}
	}
	goast.Inspect(f, func(n goast.Node) bool {
		switch n := n.(type) {
		case *goast.ImportSpec:
			return false
		case *goast.BinaryExpr:
			note(n.X, hot)
			note(n.Y, hot)
		case *goast.CaseClause:
			for _, x := range n.List {
				note(x, hot)
			}
		case *goast.CompositeLit:
			for _, x := range n.Elts {
				if kv, ok := x.(*goast.KeyValueExpr); ok {
					note(kv.Key, hot)
					note(kv.Value, hot)
				} else {
					note(x, hot)
				}
			}
		case *goast.IndexExpr:
			note(n.Index, hot)
		case *goast.CallExpr:
			m := cold
			if s, ok := n.Fun.(*goast.SelectorExpr); ok {
				if id, ok := s.X.(*goast.Ident); ok && (id.Name == "strings" || id.Name == "bytes" || id.Name == "regexp" || id.Name == "unicode") {
					m = hot
				}
			}
			for _, x := range n.Args {
				note(x, m)
			}
		case *goast.ValueSpec:
			for _, x := range n.Values {
				note(x, hot)
			}
		case *goast.AssignStmt:
			for _, x := range n.Rhs {
				note(x, hot)
			}
		case *goast.ReturnStmt:
			for _, x := range n.Results {
				note(x, cold)
			}
		}
		return true
	})
}

// dictWord is a word of the dictionary, often with something around it.
func dictWord(r *rand.Rand) string {
	d := dict()
	var w string
	switch r.IntN(8) {
	case 0:
		w = pick(r, d.cold)
	case 1:
		w = string(pick(r, d.runes))
	default:
		w = pick(r, d.words)
	}
	for n := r.IntN(3); n > 0; n-- {
		switch r.IntN(9) {
		case 0:
			w = strings.ToUpper(w)
		case 1:
			w = strings.ToLower(w)
		case 2:
			w = recase(r, w)
		case 3:
			w += string(asciiText[r.IntN(len(asciiText))])
		case 4:
			w = string(letters[r.IntN(len(letters))]) + w
		case 5:
			w += pick(r, d.words)
		case 6:
			if _, k := utf8.DecodeLastRuneInString(w); k > 0 {
				w = w[:len(w)-k]
			}
		case 7:
			w += string(pick(r, d.runes))
		case 8:
			w += w
		}
	}
	if len(w) > 200 {
		w = w[:20]
	}
	return strings.ToValidUTF8(w, "")
}

// dictFit is a dictionary word of which only the characters that keep accepts
// are kept, or "".
func dictFit(r *rand.Rand, keep func(i int, c rune) bool) string {
	for n := 0; n < 4; n++ {
		var b strings.Builder
		for _, c := range dictWord(r) {
			if keep(b.Len(), c) {
				b.WriteRune(c)
			}
		}
		if b.Len() > 0 {
			return b.String()
		}
	}
	return ""
}

func inString(s string) func(int, rune) bool {
	return func(_ int, c rune) bool { return c < 0x80 && strings.ContainsRune(s, c) }
}

func identRune(i int, c rune) bool {
	return c < 0x80 && strings.ContainsRune(nameChars, c) && (i > 0 || !('0' <= c && c <= '9'))
}

// textRune tells whether c may stand in a text part.
func textRune(dq bool) func(int, rune) bool {
	return func(_ int, c rune) bool {
		if c < 0x80 {
			return strings.ContainsRune(asciiText, c) || strings.ContainsRune(punctText, c) || c == '"' && dq
		}
		return c != 0xFEFF && c != utf8.RuneError && c != 0x85
	}
}

// size is a size at which code tends to change what it does.
func dictSize(r *rand.Rand, most int) int {
	d := dict()
	for {
		n := pick(r, d.sizes)
		switch r.IntN(8) {
		case 0:
			n *= 2
		case 1, 2, 3:
			n += r.IntN(3) - 1
		case 4:
			n += r.IntN(20)
		}
		if n > 0 && n <= most {
			return n
		}
	}
}

// dims are the dimensions of a document that a generator can make large.
const (
	dimNone = iota
	dimIdent
	dimDigits
	dimText
	dimSpace
	dimParts
	dimDepth
	dimOperands
	dimTags
	dimKeys
	dimDecls
	dimMath
	dimURL
	dimMacro
	dimLast
)

var dimMax = [dimLast]int{dimIdent: 5000, dimDigits: 5000, dimText: 5000, dimSpace: 5000, dimParts: 600, dimDepth: 600, dimOperands: 300, dimTags: 300, dimKeys: 300, dimDecls: 130, dimMath: 5000, dimURL: 2500, dimMacro: 2500}

// grow chooses one dimension or two to make large.
func (g *gen) grow() {
	r := g.r
	g.large[0] = g.largeDim(1 + r.IntN(dimLast-1))
	if r.IntN(3) == 0 { // and a second one, not so large
		g.large[1] = g.largeDim(1 + r.IntN(dimLast-1))
		g.large[1].size = 1 + g.large[1].size%40
	}
}

// largeDim is a dimension that is made large, how large and how often.
type largeDim struct{ dim, size, times int }

func (g *gen) largeDim(dim int) largeDim {
	r := g.r
	l := largeDim{dim, dictSize(r, dimMax[dim]), 1 + r.IntN(2)}
	if l.size < 200 && r.IntN(2) == 0 {
		l.times = 20
	}
	return l
}

// n is how many of something to make: the usual number, or the large one when
// this is the dimension that was chosen.
func (g *gen) n(dim, usual int) int {
	for i := range g.large {
		if l := &g.large[i]; l.dim == dim && l.times > 0 && g.r.IntN(2) > 0 {
			l.times--
			return l.size
		}
	}
	return usual
}
