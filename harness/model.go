package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The document model: what a generated source text means, independently of the
// code under test. Emitting a model writes its source and fills in the offset of
// every node.

type mPart struct {
	kind  byte   // 't'ext ','comma ' 'space '~'nbsp '$'math '\\'escaped '''accent 'm'acro 'u'rl 'g'roup
	s     string // text, white space, math, escaped char, letter, macro name, address
	name  string // for 'u': url or href
	trail string // for 'u': white space before the closing brace
	acc   rune
	spell int // accent spelling: 0 \'o, 1 \'{o}, >1 \' o with spell-1 spaces
	parts []*mPart

	pos, pos2, close int
}

type mExpr struct {
	kind  byte // 'n'umber, 'i'dent, 'l'iteral, '#'concat
	s     string
	quote bool
	parts []*mPart
	xs    []*mExpr // operands of a concatenation, at least two
	url   bool     // the literal is the address of a url tag

	pos, close int
	ops        []int
	raw        string
}

type mItem struct { // a key or a tag of an entry
	name string
	val  *mExpr // nil for a key
	pos  int
	eq   int   // offset of the equals sign
	doc  []int // indexes of comments
}

type mDecl struct {
	kind       byte // 'b'ib, 'a'bbrev, 'p'reamble
	typ        string
	paren      bool
	items      []*mItem // one tag for an abbreviation
	text       *mExpr   // preamble
	trailing   bool     // comma before the closer
	afterComma bool     // comma after the closer

	pos, open, close, end int
	doc                   []int
}

type mComment struct {
	pos  int
	text string
}

type mDoc struct {
	decls    []*mDecl
	src      string
	bom      bool
	comments []mComment
	groups   [][]int
	fileDoc  []int
	tokOffs  []int // offset of every token outside strings, for damage
}

// layout says how a model is written down.
type layout struct {
	r        *rand.Rand
	style    int // 0 minimal, 1 usual, 2 wild
	nl       string
	comments bool
	bom      bool
	recase   bool // vary letter case of types and tag names
	redelim  bool // vary declaration delimiters
	recomma  bool // vary optional commas
}

type emitter struct {
	l       *layout
	b       []byte
	doc     *mDoc
	prevTok int   // offset of the previous token, or -1
	pending []int // comments since then
	multi   bool  // the previous token spans lines
	gaps    []gapInfo
	far     bool // a very large gap is to come
}

type gapInfo struct {
	prev, next int
	comments   []int
	target     *[]int
}

var wsPieces = []string{" ", "  ", "\t", "\n", "\n", "\n\n", " \n\t", "\n\n\n", "\r", "\r\t", "\r\n", "\t\r \n"}

// randSpace is a run of white space.
func randSpace(r *rand.Rand) string {
	var b strings.Builder
	n := 1 + r.IntN(tail(r, 4, 60))
	if r.IntN(1000) == 0 {
		n = dictSize(r, 5000)
	}
	for ; n > 0; n-- {
		b.WriteByte(pickByte(r, " \t\n\r"))
	}
	return b.String()
}

// tail is usually n but now and then far.
func tail(r *rand.Rand, n, far int) int {
	if r.IntN(60) == 0 {
		return far
	}
	return n
}

func (e *emitter) writeNL(s string) {
	if e.l.nl != "\n" {
		s = strings.ReplaceAll(s, "\n", e.l.nl)
	}
	e.b = append(e.b, s...)
}

func (e *emitter) comment() {
	r := e.l.r
	pos := len(e.b)
	text := "%" + commentText(r)
	if r.IntN(25) == 0 { // a carriage return that is no line end
		i := r.IntN(len(text)) + 1
		for i < len(text) && !utf8.RuneStart(text[i]) {
			i++
		}
		text = text[:i] + strings.Repeat("\r", 1+r.IntN(2)) + text[i:]
	}
	if e.l.nl == "\n" {
		text = strings.TrimRight(text, "\r")
	}
	e.b = append(e.b, text...)
	e.pending = append(e.pending, len(e.doc.comments))
	e.doc.comments = append(e.doc.comments, mComment{pos, text})
	e.writeNL("\n")
}

var commentPool = []string{
	"", " ", "%", "% %", " plain comment", " @book{key, a = {b}}", ` "quoted" {braced}`, "}", "{", `"`, " tab\there ", " ünï – 漢字 🎉",
	" a = 1,", "\\", " $x$", "@", "@string{a=\"b\"}", " trailing  ", "=", "#,",
}

func commentText(r *rand.Rand) string {
	if r.IntN(20) == 0 {
		return dictFit(r, func(_ int, c rune) bool { return c != '\n' && c != '\r' && c != 0xFEFF && c != 0 })
	}
	if r.IntN(300) == 0 {
		return strings.Repeat("c", dictSize(r, 5000))
	}
	if r.IntN(3) == 0 {
		var b strings.Builder
		for n := r.IntN(12); n > 0; n-- {
			b.WriteByte(pickByte(r, "abc XYZ%@{}()\"=,#~$\\019"))
		}
		return b.String()
	}
	return commentPool[r.IntN(len(commentPool))]
}

// gap writes layout between two tokens.
func (e *emitter) gap(usual string) {
	r := e.l.r
	switch e.l.style {
	case 0:
		return
	case 1:
		e.writeNL(usual)
		if e.l.comments && r.IntN(6) == 0 && !e.multi {
			e.comment()
		} else if e.l.comments && r.IntN(8) == 0 {
			e.writeNL("\n")
			n, blank := 1+r.IntN(3), 4
			if r.IntN(200) == 0 {
				n = dictSize(r, 300)
				blank = 4 * pick(r, []int{1, 25, 250})
			}
			for ; n > 0; n-- {
				e.comment()
				if r.IntN(blank) == 0 {
					e.writeNL("\n")
				}
			}
		}
		e.distance()
	default:
		e.distance()
		n := r.IntN(4)
		fresh := !e.multi
		for i := 0; i < n; i++ {
			if e.l.comments && fresh && r.IntN(3) == 0 {
				e.comment()
				continue
			}
			w := wsPieces[r.IntN(len(wsPieces))]
			if r.IntN(5) == 0 {
				w = randSpace(r)
			}
			if strings.Contains(w, "\n") {
				fresh = true
			}
			e.writeNL(w)
		}
	}
}

// distance writes a very large gap, if one is due.
func (e *emitter) distance() {
	r := e.l.r
	if !e.far || r.IntN(10) > 0 {
		return
	}
	e.far = false
	e.writeNL(strings.Repeat(pick(r, []string{"\n", "\n", " ", "\t\n", "\r"}), 1<<(10+r.IntN(7))+r.IntN(1000)))
}

// tok starts a token here; target receives its documentation.
func (e *emitter) tok(target *[]int) int {
	pos := len(e.b)
	e.gaps = append(e.gaps, gapInfo{e.prevTok, pos, e.pending, target})
	e.pending = nil
	e.prevTok = pos
	e.multi = false
	e.doc.tokOffs = append(e.doc.tokOffs, pos)
	return pos
}

func (e *emitter) str(s string) { e.b = append(e.b, s...) }

func recase(r *rand.Rand, s string) string {
	return strings.Map(func(c rune) rune {
		if r.IntN(2) == 0 {
			// Only letters whose case can be changed back and forth.
			if u := unicode.ToUpper(c); u != c && unicode.ToLower(u) == c {
				return u
			} else if l := unicode.ToLower(c); l != c && unicode.ToUpper(l) == c {
				return l
			}
		}
		return c
	}, s)
}

// emit writes the document.
func (d *mDoc) emit(l *layout) string {
	e := &emitter{l: l, doc: d, prevTok: -1, far: l.r.IntN(1500) == 0}
	d.comments, d.groups, d.fileDoc, d.tokOffs = nil, nil, nil, nil
	d.bom = l.bom
	if l.bom {
		e.str("\uFEFF")
	}
	e.gap("")
	for i, dc := range d.decls {
		if i > 0 {
			if l.style == 1 {
				e.writeNL("\n\n")
			}
			e.gap("")
		}
		e.decl(dc)
	}
	e.gap("\n")
	if l.comments && l.style == 2 && l.r.IntN(4) == 0 && !e.multi {
		// a comment that the end of the file ends
		t := strings.TrimRight("%"+commentText(l.r), "\r")
		e.pending = append(e.pending, len(d.comments))
		d.comments = append(d.comments, mComment{len(e.b), t})
		e.str(t)
	}
	d.src = string(e.b)
	e.gaps = append(e.gaps, gapInfo{e.prevTok, len(e.b), e.pending, nil})
	e.resolveComments()
	return d.src
}

// resolveComments groups comments and finds documentation by line adjacency.
func (e *emitter) resolveComments() {
	d := e.doc
	line := func(off int) int { return 1 + strings.Count(d.src[:off], "\n") }
	// lines of increasing offsets, computed once
	lines := map[int]int{}
	n, last := 1, 0
	at := func(off int) int {
		if l, ok := lines[off]; ok {
			return l
		}
		if off < last {
			return line(off)
		}
		n += strings.Count(d.src[last:off], "\n")
		last = off
		lines[off] = n
		return n
	}
	for gi, g := range e.gaps {
		cs := g.comments
		var lead []int
		if len(cs) > 0 {
			prevLine := -10
			if g.prev >= 0 {
				prevLine = line(g.prev)
			}
			if at(d.comments[cs[0]].pos) == prevLine {
				d.groups = append(d.groups, []int{cs[0]})
				cs = cs[1:]
			}
			var grp []int
			end := -10
			for _, c := range cs {
				cl := at(d.comments[c].pos)
				if len(grp) > 0 && cl > end+1 {
					d.groups = append(d.groups, grp)
					grp = nil
				}
				grp = append(grp, c)
				end = cl
			}
			if len(grp) > 0 {
				d.groups = append(d.groups, grp)
				if end+1 == at(g.next) {
					lead = grp
				}
			}
		}
		if g.target != nil {
			*g.target = lead
		}
		if gi == 0 {
			d.fileDoc = lead
		}
	}
}

func (e *emitter) decl(d *mDecl) {
	l := e.l
	d.pos = e.tok(&d.doc)
	typ := d.typ
	if l.recase {
		typ = recase(l.r, typ)
		d.typ = typ
	}
	e.str("@" + typ)
	e.gap([]string{"", " "}[l.r.IntN(2)])
	if l.redelim {
		d.paren = l.r.IntN(2) == 0
	}
	d.open = e.tok(nil)
	if d.paren {
		e.str("(")
	} else {
		e.str("{")
	}
	if d.kind == 'p' {
		e.gap(" ")
		e.expr(d.text)
	}
	for i, it := range d.items {
		if it.val == nil {
			e.gap("")
		} else {
			e.gap("\n  ")
		}
		it.pos = e.tok(&it.doc)
		if l.recase && it.val != nil {
			it.name = recase(l.r, it.name)
		}
		e.str(it.name)
		if it.val != nil {
			e.gap(" ")
			it.eq = e.tok(nil)
			e.str("=")
			e.gap(" ")
			e.expr(it.val)
		}
		trailing := d.trailing
		if l.recomma {
			trailing = l.r.IntN(2) == 0
			d.trailing = trailing
		}
		if i < len(d.items)-1 || (trailing && d.kind != 'p') {
			e.gap("")
			e.tok(nil)
			e.str(",")
		}
	}
	e.gap([]string{"", "\n"}[l.r.IntN(2)])
	d.close = e.tok(nil)
	if d.paren {
		e.str(")")
	} else {
		e.str("}")
	}
	d.end = len(e.b)
	if l.recomma {
		d.afterComma = l.r.IntN(4) == 0
	}
	if d.kind == 'b' && d.afterComma {
		e.gap("")
		e.tok(nil)
		e.str(",")
	}
}

func (e *emitter) expr(x *mExpr) {
	switch x.kind {
	case 'n', 'i':
		x.pos = e.tok(nil)
		e.str(x.s)
	case '#':
		x.ops = x.ops[:0]
		for i, y := range x.xs {
			if i > 0 {
				e.gap(" ")
				x.ops = append(x.ops, e.tok(nil))
				e.str("#")
				e.gap(" ")
			}
			e.expr(y)
		}
	case 'l':
		x.pos = e.tok(nil)
		open, cl := "{", "}"
		if x.quote {
			open, cl = `"`, `"`
		}
		e.str(open)
		lo := len(e.b)
		e.parts(x.parts)
		x.raw = string(e.b[lo:])
		x.close = len(e.b)
		e.str(cl)
		e.multi = strings.Contains(x.raw, "\n")
	}
}

func (e *emitter) parts(ps []*mPart) {
	for _, p := range ps {
		p.pos = len(e.b)
		switch p.kind {
		case 't', ' ':
			e.str(p.s)
		case ',':
			e.str(",")
		case '~':
			e.str("~")
		case '$':
			e.str("$" + p.s + "$")
		case '\\':
			e.str(`\` + p.s)
		case '\'':
			e.str(`\` + string(p.acc))
			switch {
			case p.spell == 0:
			case p.spell == 1:
				e.str("{")
			default:
				e.str(strings.Repeat(" ", p.spell-1))
			}
			p.pos2 = len(e.b)
			e.str(p.s)
			if p.spell == 1 {
				e.str("}")
			}
		case 'm':
			e.str(`\` + p.s)
		case 'u':
			e.str(`\` + p.name + "{")
			p.pos2 = len(e.b)
			e.str(p.s)
			e.str(p.trail)
			p.close = len(e.b)
			e.str("}")
		case 'g':
			e.str("{")
			e.parts(p.parts)
			p.close = len(e.b)
			e.str("}")
		}
	}
}

// ---------------------------------------------------------------------------
// Random models

type gen struct {
	r       *rand.Rand
	both    bool // literals must mean the same without string parsing
	noMacro bool
	noURL   bool
	okAcc   bool // only accents that have a composed character in the table
	depth   int
	wide    int  // typical number of parts
	hot     bool // use words of the dictionary
	dup     bool // repeat tag names within an entry
	urls    bool // make url tags
	large   [2]largeDim
	prevTag string
}

func pick[E any](r *rand.Rand, xs []E) E { return xs[r.IntN(len(xs))] }

const (
	asciiText   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	punctText   = "-!?.:;'()[]/@#%&*+=<>|_^`"
	nameChars   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-/!$&*+.:;<>?[]^`|"
	nonDigits   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-/!$&*+.:;<>?[]^`|"
	letters     = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	escapeChars = `\$&%{}_`
)

var accents = []rune{'\'', 'c', '^', '.', '`', '~', '"'}
var unicodeText = []string{"é", "ß", "漢", "字", "🎉", "–", "ñ", "Ω", "ا", "\u0301", "\u00a0", "\u2028", "�", "\x01", "\x7f", "\v", "\f"}

func (g *gen) word(dq bool) string {
	r := g.r
	var b strings.Builder
	if g.hot && r.IntN(3) == 0 {
		if w := dictFit(r, textRune(dq)); w != "" {
			return w
		}
	}
	n := g.n(dimText, 1+r.IntN(8))
	if r.IntN(60) == 0 {
		n = 40 + r.IntN(400)
	}
	for i := 0; i < n; i++ {
		switch x := r.IntN(20); {
		case x < 14:
			b.WriteByte(asciiText[r.IntN(len(asciiText))])
		case x < 17:
			b.WriteByte(punctText[r.IntN(len(punctText))])
		case x == 17 && dq:
			b.WriteByte('"')
		case x == 18:
			b.WriteString(pick(r, unicodeText))
		default:
			b.WriteByte('e')
		}
	}
	return b.String()
}

var macroNames = []string{"foo", "textsc", "emph", "LaTeX", "o", "ae", "ss", "cite", "cal", "cdot", "d", "u", "URL", "hrefs", "urls", "and", "relax", "ccc", "x"}

const urlChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~:/?#[]@!&'()*+,;=%|^`<>"

func (g *gen) url() string {
	r := g.r
	var b strings.Builder
	b.WriteString(pick(r, []string{"http://", "https://", "https://www.", "http://ex.com/~"}))
	if g.hot && r.IntN(3) == 0 {
		b.WriteString(dictFit(r, inString(urlChars)))
	}
	for n := g.n(dimURL, r.IntN(30)); n >= 0; n-- {
		if r.IntN(4) == 0 {
			b.WriteByte(pickByte(r, "~%#_,&-"))
		} else {
			b.WriteByte(urlChars[r.IntN(len(urlChars))])
		}
	}
	if r.IntN(8) == 0 {
		b.WriteString(pick(r, []string{"$a$", "$$", "$1~2$/x", "$,$"}))
	}
	return b.String()
}

// trail returns white space before the closing brace of a web address.
func (g *gen) trail() string {
	if g.r.IntN(6) > 0 {
		return ""
	}
	return pick(g.r, []string{" ", "  ", "\t", "\n", "\r\n "})
}

func (g *gen) math(dq bool) string {
	r := g.r
	var b strings.Builder
	if g.hot && r.IntN(3) == 0 {
		b.WriteString(dictFit(r, inString(asciiText)))
	}
	for n := g.n(dimMath, r.IntN(8)); n > 0; n-- {
		switch r.IntN(9) {
		case 0:
			b.WriteString("{" + g.math0() + "}")
		case 1:
			b.WriteString(`\alpha`)
		case 2:
			b.WriteString(`\$`)
		case 3:
			b.WriteString(" ")
		case 4:
			if dq {
				b.WriteString(`"`)
			}
		case 5:
			b.WriteString(pick(r, []string{"~", ",", "%", "#", "é", `\\`, "^2", "_i"}))
		default:
			b.WriteByte(pickByte(r, "xyzE=+mc^_123"))
		}
	}
	return b.String()
}

func (g *gen) math0() string {
	var b strings.Builder
	for n := g.r.IntN(4); n > 0; n-- {
		b.WriteByte(pickByte(g.r, "xyz=+12 ,~"))
	}
	return b.String()
}

var stringSpaces = []string{" ", " ", " ", "  ", "\n", "\t", "\n    ", " \t ", "\r\n", "\r", " \n\n "}

// parts makes the content of a literal. quote0: directly inside double quotes,
// where a double quote would end the literal.
func (g *gen) partList(depth int, quote0 bool, n int) []*mPart {
	r := g.r
	var ps []*mPart
	dq := !quote0
	for len(ps) < n {
		var prev *mPart
		if len(ps) > 0 {
			prev = ps[len(ps)-1]
		}
		p := g.part(depth, quote0, dq)
		if p == nil || !canFollow(prev, p) {
			if r.IntN(50) == 0 {
				break
			}
			continue
		}
		ps = append(ps, p)
	}
	return ps
}

func isLetterByte(c byte) bool { return 'a' <= c|32 && c|32 <= 'z' }

// canFollow tells whether the source of p directly after prev still means p.
func canFollow(prev, p *mPart) bool {
	if prev == nil {
		return true
	}
	switch prev.kind {
	case 't':
		return p.kind != 't'
	case ' ':
		return p.kind != ' '
	case 'm':
		if isLetterByte(prev.s[0]) { // a name made of letters runs up to a special character
			return p.kind != 't'
		}
	case '\'':
		if prev.acc == 'c' && prev.spell == 0 && p.kind == 't' {
			return !isLetterByte(p.s[0])
		}
	}
	return true
}

func (g *gen) part(depth int, quote0, dq bool) *mPart {
	r := g.r
	switch r.IntN(16) {
	case 0, 1, 2, 3:
		return &mPart{kind: 't', s: g.word(dq)}
	case 4, 5, 6:
		if r.IntN(6) == 0 {
			s := randSpace(r)
			for n := g.n(dimSpace, 0); len(s) < n; {
				s += pick(r, []string{" ", " ", "\n", "\t", "        "})
			}
			return &mPart{kind: ' ', s: s}
		}
		return &mPart{kind: ' ', s: pick(r, stringSpaces)}
	case 7:
		return &mPart{kind: ','}
	case 8:
		return &mPart{kind: '~'}
	case 9:
		return &mPart{kind: '$', s: g.math(dq || !g.both)}
	case 10:
		c := escapeChars[r.IntN(len(escapeChars))]
		if g.both && (c == '{' || c == '}') {
			return nil
		}
		return &mPart{kind: '\\', s: string(c)}
	case 11, 12:
		p := &mPart{kind: '\'', acc: pick(r, accents), s: string(letters[r.IntN(len(letters))]), spell: r.IntN(3)}
		if p.spell == 2 {
			p.spell = 2 + r.IntN(3)
		}
		if g.okAcc {
			for accentTable[string(p.acc)+p.s] == 0 {
				p.acc, p.s = pick(r, accents), string(pickByte(r, "aeiouAEIOUyYnNcCgGzZ"))
			}
		}
		if p.acc == '"' && quote0 && g.both {
			return nil
		}
		return p
	case 13:
		if g.noMacro {
			return nil
		}
		if r.IntN(3) == 0 {
			return &mPart{kind: 'm', s: string(pickByte(r, ",;[]()"))}
		}
		if g.hot && r.IntN(3) == 0 {
			// a name that is neither an accent nor the start of an address
			if s := dictFit(r, inString(letters)); len(s) > 1 && s != "url" && s != "href" && (len(s) > 2 || s[0] != 'c') {
				return &mPart{kind: 'm', s: s}
			}
		}
		s := pick(r, macroNames)
		for n := g.n(dimMacro, 0); len(s) < n; {
			s += string(letters[r.IntN(len(letters))])
		}
		return &mPart{kind: 'm', s: s}
	case 14:
		if g.noMacro || g.noURL || r.IntN(2) == 0 {
			return nil
		}
		return &mPart{kind: 'u', name: pick(r, []string{"url", "href"}), s: g.url(), trail: g.trail()}
	default:
		if depth >= g.depth {
			return nil
		}
		p := &mPart{kind: 'g', parts: g.partList(depth+1, false, g.n(dimParts, r.IntN(g.wide+1)))}
		for n := g.n(dimDepth, 0); n > depth+1; n-- {
			q := &mPart{kind: 'g', parts: []*mPart{p}}
			if r.IntN(2) == 0 {
				q.parts = []*mPart{g.sibling(), p}
			}
			if r.IntN(2) == 0 {
				q.parts = append(q.parts, g.sibling())
			}
			p = q
		}
		return p
	}
}

// sibling is a small part that stands before or after a group.
func (g *gen) sibling() *mPart {
	switch g.r.IntN(5) {
	case 0:
		return &mPart{kind: ','}
	case 1:
		return &mPart{kind: '~'}
	case 2:
		return &mPart{kind: ' ', s: " "}
	case 3:
		return &mPart{kind: 't', s: pick(g.r, []string{`"`, `""`, `a"`})}
	default:
		return &mPart{kind: 't', s: "x"}
	}
}

func (g *gen) literal() *mExpr {
	x := &mExpr{kind: 'l', quote: g.r.IntN(2) == 0}
	x.parts = g.partList(0, x.quote, g.n(dimParts, g.r.IntN(2*g.wide+1)))
	return x
}

func (g *gen) ident() string {
	r := g.r
	var b strings.Builder
	if g.hot && r.IntN(3) == 0 {
		if s := dictFit(r, identRune); s != "" {
			return s
		}
	}
	b.WriteByte(nonDigits[r.IntN(len(nonDigits))])
	for n := g.n(dimIdent, r.IntN(tail(r, 10, 100))); n > 0; n-- {
		b.WriteByte(nameChars[r.IntN(len(nameChars))])
	}
	return b.String()
}

func (g *gen) digits() string {
	if n := g.n(dimDigits, 0); n > 0 {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + g.r.IntN(10))
		}
		return string(b)
	}
	if g.hot && g.r.IntN(3) == 0 {
		return fmt.Sprint(pick(g.r, dict().sizes) + g.r.IntN(3) - 1)
	}
	if g.r.IntN(10) == 0 {
		return pick(g.r, []string{"0", "007", "99999999999999999999999999", "2020"})
	}
	return fmt.Sprint(g.r.IntN(3000))
}

func (g *gen) value() *mExpr {
	r := g.r
	if r.IntN(6) == 0 {
		n := max(2, g.n(dimOperands, 2+r.IntN(tail(r, 3, 30))))
		x := &mExpr{kind: '#'}
		for i := 0; i < n; i++ {
			x.xs = append(x.xs, g.operand())
		}
		return x
	}
	return g.operand()
}

func (g *gen) operand() *mExpr {
	switch g.r.IntN(6) {
	case 0:
		return &mExpr{kind: 'n', s: g.digits()}
	case 1:
		return &mExpr{kind: 'i', s: g.ident()}
	default:
		return g.literal()
	}
}

var tagNames = []string{"author", "title", "year", "journal", "note", "editor", "howpublished", "a", "Key", "doi", "ISBN", "x-y", "a.b:c", "Url2", "month", "abstract"}

func (g *gen) tagName(used map[string]bool) string {
	if g.dup && used[strings.ToLower(g.prevTag)] && g.r.IntN(3) == 0 {
		if g.r.IntN(2) == 0 {
			g.prevTag = recase(g.r, g.prevTag)
		}
		return g.prevTag
	}
	for {
		n := pick(g.r, tagNames)
		switch g.r.IntN(4) {
		case 0:
			n = recase(g.r, n)
		case 1:
			n = string(letters[g.r.IntN(len(letters))]) + g.ident()
		case 2:
			if g.hot {
				s := dictFit(g.r, identRune)
				if s != "" && isLetterByte(s[0]) {
					n = s
				}
			}
		}
		low := strings.ToLower(n)
		if low == "url" || used[low] {
			continue
		}
		used[low] = true
		g.prevTag = n
		return n
	}
}

func (g *gen) citeKey() string {
	r := g.r
	switch r.IntN(6) {
	case 0:
		return g.digits()
	case 1:
		return pick(r, []string{"10.1145/12", "2020abc", "DBLP:conf/x/Y12", "knuth:1984", "a", "-", "smith+jones", "1", "0x1F"})
	default:
		return g.ident()
	}
}

var entryTypes = []string{"article", "book", "inproceedings", "misc", "PhdThesis", "ARTICLE", "Book", "x", "online", "my_type", "strings", "comments", "preambles", "été"}

// randType is a random entry type.
func randType(r *rand.Rand) string {
	for {
		var b strings.Builder
		for n := 1 + r.IntN(tail(r, 9, 80)); n > 0; n-- {
			switch r.IntN(8) {
			case 0:
				b.WriteString(pick(r, []string{"é", "É", "ü", "Ü", "ñ", "Ж", "ж", "Σ", "λ", "漢", "ا", "ß", "Ǆ", "ə"}))
			case 1:
				b.WriteByte('_')
			default:
				b.WriteByte(letters[r.IntN(len(letters))])
			}
		}
		s := b.String()
		if !strings.EqualFold(s, "comment") && !strings.EqualFold(s, "string") && !strings.EqualFold(s, "preamble") {
			return s
		}
	}
}

func (g *gen) entry() *mDecl {
	r := g.r
	d := &mDecl{kind: 'b', typ: pick(r, entryTypes), paren: r.IntN(4) == 0}
	if r.IntN(4) == 0 {
		d.typ = randType(r)
	}
	if r.IntN(10) > 0 {
		d.items = append(d.items, &mItem{name: g.citeKey()})
	}
	if g.hot && r.IntN(2) == 0 {
		if s := dictFit(r, inString(letters)); s != "" && !strings.EqualFold(s, "comment") && !strings.EqualFold(s, "string") && !strings.EqualFold(s, "preamble") {
			d.typ = s
		}
	}
	for n := g.n(dimKeys, 0); n > 0; n-- {
		d.items = append(d.items, &mItem{name: g.citeKey()})
	}
	used := map[string]bool{}
	for n := g.n(dimTags, r.IntN(tail(r, 5, 50))); n > 0; n-- {
		if r.IntN(12) == 0 {
			d.items = append(d.items, &mItem{name: g.citeKey()})
		} else if g.urls && r.IntN(6) == 0 && !used["url"] {
			used["url"] = true
			v := &mExpr{kind: 'l', url: true, quote: r.IntN(2) == 0, parts: []*mPart{{kind: 't', s: g.url()}}}
			if v.quote && r.IntN(4) == 0 {
				v = &mExpr{kind: '#', xs: []*mExpr{v, g.operand()}}
			}
			d.items = append(d.items, &mItem{name: recase(r, "url"), val: v})
		} else {
			d.items = append(d.items, &mItem{name: g.tagName(used), val: g.value()})
		}
	}
	if len(d.items) > 0 {
		d.trailing = r.IntN(3) == 0
	}
	d.afterComma = r.IntN(12) == 0
	return d
}

func (g *gen) decl() *mDecl {
	r := g.r
	switch r.IntN(8) {
	case 0:
		return &mDecl{kind: 'a', typ: pick(r, []string{"string", "STRING", "String"}), paren: r.IntN(3) == 0,
			items: []*mItem{{name: g.tagNameAbbrev(), val: g.value()}}, trailing: r.IntN(4) == 0}
	case 1:
		return &mDecl{kind: 'p', typ: pick(r, []string{"preamble", "PREAMBLE", "pReAmble"}), paren: r.IntN(3) == 0, text: g.value()}
	default:
		return g.entry()
	}
}

func (g *gen) tagNameAbbrev() string { return g.tagName(map[string]bool{}) }

func (g *gen) docN(n int) *mDoc {
	d := &mDoc{}
	n = g.n(dimDecls, n)
	for i := 0; i < n; i++ {
		d.decls = append(d.decls, g.decl())
	}
	return d
}

func newGen(r *rand.Rand, both bool) *gen {
	g := &gen{r: r, both: both, depth: 1 + r.IntN(4), wide: 1 + r.IntN(5)}
	g.hot = r.IntN(4) == 0
	g.dup = r.IntN(5) == 0
	if r.IntN(50) == 0 {
		g.grow()
	}
	switch r.IntN(300) {
	case 0: // deep
		g.depth, g.wide = 60, 2
	case 1: // wide
		g.depth, g.wide = 2, 30
	}
	return g
}

func randLayout(r *rand.Rand) *layout {
	l := &layout{r: r, style: r.IntN(3), nl: "\n", comments: r.IntN(3) > 0}
	if r.IntN(4) == 0 {
		l.nl = "\r\n"
	}
	l.bom = r.IntN(10) == 0
	return l
}

// ---------------------------------------------------------------------------
// Canonical descriptions of models

type dumpOpt struct {
	pos     bool // with offsets
	strings bool // string contents are parsed
	raw     bool // with raw tag names
	docs    bool // with documentation
	base    int  // subtracted from offsets
}

func (o dumpOpt) at(off int) string {
	if !o.pos {
		return ""
	}
	return fmt.Sprintf("@%d", off-o.base)
}

func (d *mDoc) dump(o dumpOpt) string {
	var b strings.Builder
	for _, dc := range d.decls {
		d.dumpDecl(&b, dc, o)
	}
	return b.String()
}

func (d *mDoc) docText(cs []int) string {
	s := ""
	for _, c := range cs {
		s += fmt.Sprintf("[%d %q]", d.comments[c].pos, d.comments[c].text)
	}
	return s
}

func (d *mDoc) dumpDecl(b *strings.Builder, dc *mDecl, o dumpOpt) {
	doc := func(cs []int) string {
		if !o.docs {
			return ""
		}
		return " doc=" + d.docText(cs)
	}
	switch dc.kind {
	case 'a':
		it := dc.items[0]
		fmt.Fprintf(b, "string%s%s%s%s\n", o.at(dc.pos), " close", o.at(dc.close), doc(dc.doc))
		dumpItem(b, it, o, doc(it.doc))
	case 'p':
		fmt.Fprintf(b, "preamble%s close%s%s\n  ", o.at(dc.pos), o.at(dc.close), doc(dc.doc))
		dumpM(b, dc.text, o)
		b.WriteByte('\n')
	default:
		fmt.Fprintf(b, "entry %q%s close%s%s\n", strings.ToLower(dc.typ), o.at(dc.pos), o.at(dc.close), doc(dc.doc))
		extra := "" // the first key is the cite key
		for _, it := range dc.items {
			if it.val == nil {
				fmt.Fprintf(b, "  %skey %q%s\n", extra, it.name, o.at(it.pos))
				extra = "extra "
			}
		}
		for _, it := range dc.items {
			if it.val != nil {
				dumpItem(b, it, o, doc(it.doc))
			}
		}
	}
}

func dumpItem(b *strings.Builder, it *mItem, o dumpOpt, doc string) {
	raw := ""
	if o.raw {
		raw = fmt.Sprintf(" raw=%q", it.name)
	}
	fmt.Fprintf(b, "  tag %q%s%s%s = ", strings.ToLower(it.name), o.at(it.pos), raw, doc)
	dumpM(b, it.val, o)
	b.WriteByte('\n')
}

func dumpM(b *strings.Builder, x *mExpr, o dumpOpt) {
	switch x.kind {
	case 'n':
		fmt.Fprintf(b, "num(%q)%s", x.s, o.at(x.pos))
	case 'i':
		fmt.Fprintf(b, "id(%q)%s", x.s, o.at(x.pos))
	case '#':
		for i, y := range x.xs {
			if i < len(x.xs)-1 {
				b.WriteString("(")
			}
			dumpM(b, y, o)
			if i < len(x.xs)-1 {
				fmt.Fprintf(b, " #%s ", o.at(x.ops[i]))
			}
		}
		b.WriteString(strings.Repeat(")", len(x.xs)-1))
	case 'l':
		delim := "brace"
		if x.quote {
			delim = "quote"
		}
		if !o.strings {
			fmt.Fprintf(b, "raw(%s %q)%s", delim, x.raw, o.at(x.pos))
			return
		}
		if x.url && x.quote {
			fmt.Fprintf(b, "text%s(%q)", o.at(x.pos), x.parts[0].s)
			return
		}
		fmt.Fprintf(b, "str%s(%s 0", o.at(x.pos), delim)
		dumpMParts(b, x.parts, 1, o)
		fmt.Fprintf(b, ")%s", o.at(x.close))
	}
}

func dumpMParts(b *strings.Builder, ps []*mPart, depth int, o dumpOpt) {
	for _, p := range ps {
		b.WriteByte(' ')
		switch p.kind {
		case 't':
			fmt.Fprintf(b, "text%s(%q)", o.at(p.pos), p.s)
		case ' ':
			fmt.Fprintf(b, "space%s", o.at(p.pos))
		case ',':
			fmt.Fprintf(b, "comma%s", o.at(p.pos))
		case '~':
			fmt.Fprintf(b, "nbsp%s", o.at(p.pos))
		case '$':
			fmt.Fprintf(b, "math%s(%q)", o.at(p.pos), p.s)
		case '\\':
			fmt.Fprintf(b, "esc%s(%q)", o.at(p.pos), p.s)
		case '\'':
			fmt.Fprintf(b, "accent%s(%q %q%s)", o.at(p.pos), p.acc, p.s, o.at(p.pos2))
		case 'm':
			fmt.Fprintf(b, "macro%s(%q)", o.at(p.pos), p.s)
		case 'u':
			fmt.Fprintf(b, "macro%s(%q text%s(%q) end%s)", o.at(p.pos), p.name, o.at(p.pos2), p.s, o.at(p.close))
		case 'g':
			fmt.Fprintf(b, "str%s(brace %d", o.at(p.pos), depth)
			dumpMParts(b, p.parts, depth+1, o)
			fmt.Fprintf(b, ")%s", o.at(p.close))
		}
	}
}

func pickByte(r *rand.Rand, s string) byte { return s[r.IntN(len(s))] }
