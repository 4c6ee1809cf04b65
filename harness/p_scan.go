package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

type scanTok struct {
	off int
	tok token.Token
	lit string
}

type scanRun struct {
	toks   []scanTok // up to and with the first EOF
	errs   []string
	offs   []int // offsets of the errors
	counts []int // reports so far, after each token
	count  int
}

// initScan prepares s for src in a file set of its own.
func initScan(s *scanner.Scanner, src string, mode scanner.Mode, handler bool, run *scanRun) *gotok.File {
	file := gotok.NewFileSet().AddFile(caseFile, -1, len(src))
	initScanFile(s, file, src, mode, handler, run)
	return file
}

func initScanFile(s *scanner.Scanner, file *gotok.File, src string, mode scanner.Mode, handler bool, run *scanRun) {
	var h scanner.ErrorHandler
	if handler {
		h = func(pos gotok.Position, msg string) {
			run.errs = append(run.errs, fmt.Sprintf("%v: %s", pos, msg))
			run.offs = append(run.offs, pos.Offset)
		}
	}
	s.Init(file, []byte(src), h, mode)
}

// scanAll tokenizes src and fails when the stream does not end.
func (t *T) scanAll(s *scanner.Scanner, src string, mode scanner.Mode, handler bool) *scanRun {
	return t.scanFile(s, gotok.NewFileSet().AddFile(caseFile, -1, len(src)), src, mode, handler)
}

func (t *T) scanFile(s *scanner.Scanner, file *gotok.File, src string, mode scanner.Mode, handler bool) *scanRun {
	run := &scanRun{}
	t.Guard(len(src))
	initScanFile(s, file, src, mode, handler, run)
	for i := 0; ; i++ {
		if i > len(src)+2 {
			t.Fail("scanner mode %d: more than %d tokens in %d bytes", mode, i, len(src))
		}
		pos, tok, lit := s.Scan()
		off := int(pos) - file.Base()
		run.toks = append(run.toks, scanTok{off, tok, lit})
		run.counts = append(run.counts, s.ErrorCount)
		if handler && s.ErrorCount != len(run.errs) {
			t.Fail("error count %d after %d reports", s.ErrorCount, len(run.errs))
		}
		if tok == token.EOF {
			break
		}
	}
	run.count = s.ErrorCount
	t.Done()
	t.Eval()
	return run
}

func describeRun(r *scanRun) string {
	var b strings.Builder
	for _, x := range r.toks {
		fmt.Fprintf(&b, "%d %s %q\n", x.off, x.tok, x.lit)
	}
	fmt.Fprintf(&b, "%d errors\n%s\n", r.count, strings.Join(r.errs, "\n"))
	return b.String()
}

// big makes a long input.
func big(t *T) string {
	r := t.R
	switch r.IntN(5) {
	case 0:
		return nest(r, 1000+r.IntN(9000))
	case 1:
		return clipBytes(strings.Repeat(pick(r, soup), 1+r.IntN(30000)), 1<<16)
	case 2:
		return clipBytes(tokenSoup(r, 20000), 1<<16)
	case 3:
		pre := pick(r, []string{"@b{k, a = {", "@b{k, a = \"", "@b{", "@b{k, a = ", "@string{a=", "@b{k, url = {", "@b{k, url = \""})
		return clipBytes(pre+strings.Repeat(pick(r, soup)+pick(r, soup), 1+r.IntN(20000)), 1<<16)
	default:
		g := newGen(r, false)
		d := g.docN(200)
		return clipBytes(d.emit(randLayout(r)), 1<<16)
	}
}

func clipBytes(s string, n int) string { return s[:min(n, len(s))] }

// checkTotal runs everything that must be total on src.
func checkTotal(t *T, src string, modes []parser.Mode) {
	t.Input(src)
	for m := scanner.Mode(0); m < 4; m++ {
		run := t.scanAll(&scanner.Scanner{}, src, m, m&1 == 0)
		t.Event("tokens", len(run.toks))
	}
	for _, m := range modes {
		f, err := t.parseDoc(src, m)
		if err == nil {
			t.Event("document accepted", 1)
			eachNode(f, func(n ast.Node) {}) // no nil where a node belongs
		} else {
			t.Event("document rejected", 1)
			t.checkErrors(err)
		}
		if m&mTrace != 0 {
			t.Event("traced parse", 1)
		}
		t.Event(fmt.Sprintf("mode %d", m), 1)
	}
	x, err := t.parseExpr(src)
	if (x == nil) != (err != nil) {
		t.Fail("ParseExpr returned value %v and error %v", x, err)
	}
	if err != nil {
		t.checkErrors(err)
		t.Event("expression rejected", 1)
	} else {
		t.Event("expression accepted", 1)
	}
}

// checkErrors checks the shape of a list of syntax errors.
func (t *T) checkErrors(err error) {
	l := errList(err)
	if len(l) == 0 {
		t.Fail("a syntax error of type %T: %v", err, err)
	}
	for i := 1; i < len(l); i++ {
		if l[i].Pos.Offset < l[i-1].Pos.Offset {
			t.Fail("errors are not sorted by position: %v before %v", l[i-1], l[i])
		}
	}
}

func randMode(t *T) parser.Mode { return parser.Mode(t.R.IntN(32)) }

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration", Quick: 30000, Thorough: 80000, MinDist: 5000,
		Rule:  "hostile inputs (random bytes, token soups, damaged and truncated documents, deep nests, 64 KiB repetitions) and coverage-guided campaigns of mutations; each input is tokenized in all scanner modes, parsed in sampled parser modes and as an expression. Watched: panics, executed blocks and heap in proportion to the input, token count, shape of the result. Non-trivial: the input is rejected by some parse; distinct by input.",
		Need:  []string{"document accepted", "document rejected", "expression accepted", "expression rejected", "traced parse", "large input", "deep concatenation", "campaign inputs that reached something new", "mode 0", "mode 31"},
		Fixed: func() []string { return fixedHostile },
		RunFixed: func(t *T, in string) {
			var all []parser.Mode
			for m := parser.Mode(0); m < 32; m++ {
				all = append(all, m)
			}
			checkTotal(t, in, all)
			checkTotal(t, "@a{x,y={z}}\n"+in, all)
			t.Distinct(in)
		},
		Run: func(t *T) {
			one := func(src string) {
				checkTotal(t, src, []parser.Mode{randMode(t), randMode(t) | mStrings, randMode(t) &^ mStrings})
				t.Distinct(src)
			}
			switch {
			case t.Idx%100 == 7:
				src := big(t)
				t.MaxOf("largest input", int64(len(src)))
				t.Event("large input", 1)
				one(src)
			case t.Idx%150 == 9:
				src := deepConcat(t.R)
				checkTotal(t, src, []parser.Mode{mTrace | randMode(t), mStrings | randMode(t)})
				t.Event("deep concatenation", 1)
				t.Distinct(src)
			case t.Idx%500 == 11:
				n := 400
				if t.thorough() {
					n = 4000
				}
				t.campaign(n, []string{hostile(t), hostile(t), t.docFor()}, one)
			default:
				src := hostile(t)
				one(src)
				t.Sample(src)
			}
		},
	})

	register(&Prop{
		ID: "C05", Level: "exploration", Quick: 120000, Thorough: 2000000, MinDist: 30000,
		Rule:  "well-formed, damaged and random inputs are tokenized in both string modes with and without an error handler, and the token stream is checked against the source bytes it claims to cover. Non-trivial: at least three tokens; distinct by input.",
		Need:  []string{"tok Ident", "tok Number", "tok String", "tok BraceString", "tok TexComment", "tok BibEntry", "tok Abbrev", "tok Preamble", "tok Comment", "tok StringContents", "tok StringMath", "tok StringBackslash", "tok StringAccent", "tok StringMacro", "tok StringSpace", "tok StringComma", "tok NBSP", "tok Illegal", "tok DoubleQuote", "error report", "campaign inputs that reached something new"},
		Fixed: func() []string { return fixedHostile },
		RunFixed: func(t *T, in string) {
			tile(t, in)
		},
		Run: func(t *T) {
			switch {
			case t.Idx%1000 == 13:
				tile(t, big(t))
			case t.Idx%1500 == 17:
				n := 500
				if t.thorough() {
					n = 5000
				}
				t.campaign(n, []string{t.docFor(), hostile(t)}, func(s string) { tile(t, s) })
			case t.R.IntN(3) == 0:
				tile(t, t.docFor())
			default:
				s := hostile(t)
				tile(t, s)
				t.Sample(s)
			}
		},
	})

	register(&Prop{
		ID: "C10", Level: "exploration", Quick: 90000, Thorough: 3000000, MinDist: 3000,
		Rule: "one input is delivered as every kind of source, through readers with random chunkings, and with a read fault; trees, errors and the caller's bytes are compared. Non-trivial: a tree with a tag; distinct by input and fault offset.",
		Need: []string{"chunked reader", "read fault", "fault with data", "file", "named pipe", "link to a file", "buffer", "missing file", "unsupported source", "bytes changed after parsing", "source of a megabyte or more", "a strings.Reader that was read from before", "a bufio.Reader that was read from before", "fault that goes away", "a reader that knows its size", "a reader of bytes", "a reader that can write", "a reader with a description", "a reader that parses", "any name", "name of another file"},
		Run:  runC10,
	})

	register(&Prop{
		ID: "C12", Level: "exploration", Quick: 320000, Thorough: 5000000, MinDist: 8000,
		Rule: "a scanner is initialised again at random points of up to four earlier scans and compared with a new one; parsing, resolving and rendering an input is repeated with other inputs in between, some of them nearly the same; lists of similar inputs are handled by two processes in opposite orders; several scanners advance in turn, also from inside error handlers. Non-trivial: the abandoned scan was cut inside its token stream; distinct by the history.",
		Need: []string{"scanner reused", "cut inside a string", "cut after an error", "parse repeated", "expression repeated", "resolve repeated", "render repeated", "scanner reused for the same file", "scanners in turn", "scanner used inside an error handler", "processed in two orders by two processes"},
		Run:  runC12,
	})
}

// ---------------------------------------------------------------------------
// C05

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func isNameByte(c byte) bool { return strings.IndexByte(nameChars, c) >= 0 }

func isDigitByte(c byte) bool { return '0' <= c && c <= '9' }

func isTypeRune(r rune) bool {
	return r == '_' || r < utf8.RuneSelf && isLetterByte(byte(r)) || r >= utf8.RuneSelf && unicode.IsLetter(r)
}

func tile(t *T, src string) {
	t.Input(src)
	for _, mode := range []scanner.Mode{0, scanner.ScanStrings, scanner.ScanStrings | scanner.ScanComments} {
		var s scanner.Scanner
		run := t.scanAll(&s, src, mode, true)
		tileRun(t, src, mode, run)
		reported := len(run.errs)
		for i := 0; i < 3; i++ {
			p0 := run.toks[len(run.toks)-1].off
			if pos, tok, lit := s.Scan(); tok != token.EOF || lit != "" || int(pos)-1 != p0 {
				t.Fail("mode %d: after the end of the file: %s %q at %d (end at %d)", mode, tok, lit, int(pos)-1, p0)
			}
		}
		if s.ErrorCount != len(run.errs) {
			t.Fail("mode %d: error count %d after %d reports", mode, s.ErrorCount, len(run.errs))
		}
		if len(run.errs) != reported {
			t.Fail("mode %d: an error is reported after the end of the file: %v", mode, run.errs[reported:])
		}
		quiet := t.scanAll(&scanner.Scanner{}, src, mode, false)
		if quiet.count != run.count {
			t.Fail("mode %d: %d errors without a handler, %d with one", mode, quiet.count, run.count)
		}
		quiet.errs = run.errs
		if a, b := describeRun(run), describeRun(quiet); a != b {
			t.Fail("mode %d: a handler changes the tokens\n%s", mode, diff(a, b))
		}
		t.Event("error report", len(run.errs))
		if len(run.toks) > 3 {
			t.Distinct(src)
		}
	}
}

func tileRun(t *T, src string, mode scanner.Mode, run *scanRun) {
	strs := mode&scanner.ScanStrings != 0
	end := 0 // end of the previous token; -1 when unknown
	badEnd := 0
	inStr := false
	quote := false
	depth := 0
	reports := 0
	fail := func(x scanTok, format string, args ...any) {
		t.Fail("mode %d: token %s %q at %d: %s", mode, x.tok, clip(x.lit, 200), x.off, fmt.Sprintf(format, args...))
	}
	at := func(i int) byte {
		if i < len(src) {
			return src[i]
		}
		return 0
	}
	for i, x := range run.toks {
		o := x.off
		if o < 0 || o > len(src) {
			fail(x, "position outside the source")
		}
		if i > 0 && o <= run.toks[i-1].off && !(x.tok == token.EOF && o == len(src) && run.toks[i-1].off < o) {
			fail(x, "position does not grow (previous %d)", run.toks[i-1].off)
		}
		if end < 0 && o > badEnd {
			fail(x, "the malformed construct before it ends at %d, so %q is skipped", badEnd, src[badEnd:o])
		}
		if end >= 0 {
			if o < end {
				fail(x, "overlaps the previous token, which ends at %d", end)
			}
			gap := src[end:o]
			if inStr && gap != "" {
				fail(x, "skipped %q inside a string", gap)
			}
			if !inStr {
				if end == 0 && i == 0 {
					gap = strings.TrimPrefix(gap, "\uFEFF")
				}
				if strings.Trim(gap, " \t\r\n") != "" {
					fail(x, "skipped %q", gap)
				}
			}
		}
		text := func(s string) {
			if !strings.HasPrefix(src[o:], s) {
				fail(x, "source has %q", clip(src[o:], len(s)+10))
			}
			end = o + len(s)
		}
		all := func(s string, ok func(c byte) bool) {
			if s == "" {
				fail(x, "is empty")
			}
			for j := 0; j < len(s); j++ {
				if !ok(s[j]) {
					fail(x, "contains %q", s[j])
				}
			}
		}
		noLit := func() {
			if x.lit != "" {
				fail(x, "has a literal")
			}
		}
		special := func(c byte) bool {
			return strings.IndexByte("${},~\\ \t\r\n", c) >= 0 || c == '"' && quote && depth == 0
		}
		t.Event("tok "+x.tok.String(), 1)
		str := false
		switch x.tok {
		case token.StringContents, token.StringMath, token.StringBackslash, token.StringMacro, token.StringAccent,
			token.StringSpace, token.StringComma, token.StringNBSP, token.StringHyphen, token.StringRBrace:
			str = true
			if !inStr {
				fail(x, "outside a string")
			}
		case token.DoubleQuote, token.StringLBrace, token.Illegal, token.EOF:
			str = inStr
		}
		if inStr && !str {
			fail(x, "inside a string")
		}
		if str && !strs {
			fail(x, "although strings are not tokenized")
		}
		checkClass(t, x.tok, str)
		switch x.tok {
		case token.EOF:
			noLit()
			if o != len(src) {
				fail(x, "before the end of the source, %d", len(src))
			}
			if inStr && run.counts[i] == 0 {
				fail(x, "an unterminated string is not reported")
			}
		case token.Number:
			text(x.lit)
			all(x.lit, isDigitByte)
			if isNameByte(at(end)) {
				fail(x, "is cut short")
			}
		case token.Ident:
			text(x.lit)
			all(x.lit, isNameByte)
			if isNameByte(at(end)) {
				fail(x, "is cut short")
			}
			if strings.Trim(x.lit, "0123456789") == "" {
				fail(x, "is a number")
			}
		case token.Comma, token.Assign, token.LParen, token.LBrace, token.RParen, token.RBrace, token.Concat:
			noLit()
			text(map[token.Token]string{token.Comma: ",", token.Assign: "=", token.LParen: "(", token.LBrace: "{", token.RParen: ")", token.RBrace: "}", token.Concat: "#"}[x.tok])
		case token.BibEntry, token.Abbrev, token.Preamble, token.Comment:
			text(x.lit)
			if !strings.HasPrefix(x.lit, "@") {
				fail(x, "does not begin with @")
			}
			for _, c := range x.lit[1:] {
				if !isTypeRune(c) {
					fail(x, "contains %q", c)
				}
			}
			if c, _ := utf8.DecodeRuneInString(src[end:]); end < len(src) && c != utf8.RuneError && isTypeRune(c) {
				fail(x, "is cut short")
			}
			want := token.BibEntry
			switch strings.ToLower(x.lit) {
			case "@string":
				want = token.Abbrev
			case "@preamble":
				want = token.Preamble
			case "@comment":
				want = token.Comment
			}
			if x.tok != want && strings.ToLower(x.lit) == strings.ToLower(strings.ToUpper(x.lit)) && len(x.lit) == len([]rune(x.lit)) {
				fail(x, "is not a %s", want)
			}
		case token.TexComment:
			text(x.lit)
			if !strings.HasPrefix(x.lit, "%") || strings.Contains(x.lit, "\n") {
				fail(x, "is not one comment")
			}
			rest := strings.TrimPrefix(src[end:], "\r")
			if rest != "" && rest[0] != '\n' {
				fail(x, "is cut short")
			}
		case token.String, token.BraceString:
			open, cl := `"`, `"`
			if x.tok == token.BraceString {
				open, cl = "{", "}"
			}
			text(open + x.lit)
			if strings.HasPrefix(src[end:], cl) {
				end++
			} else if end != len(src) || run.counts[i] == reports {
				fail(x, "does not end at a closing delimiter")
			}
			d := 0
			for j := 0; j < len(x.lit); j++ {
				switch x.lit[j] {
				case '{':
					d++
				case '}':
					d = max(d-1, -1)
					if d < 0 && x.tok == token.BraceString {
						fail(x, "runs past its closing brace")
					}
					d = max(d, 0)
				case '"':
					if d == 0 && x.tok == token.String {
						fail(x, "runs past its closing quote")
					}
				}
			}
			if d > 0 && run.counts[i] == reports {
				fail(x, "has %d unclosed braces", d)
			}
		case token.Illegal:
			if run.counts[i] == 0 || run.counts[i] <= 0 {
				fail(x, "is not reported")
			}
			if inStr {
				end, badEnd = -1, malformedEnd(src, o, quote && depth == 0)
			} else {
				_, w := utf8.DecodeRuneInString(src[o:])
				if w == 0 {
					fail(x, "at the end of the source")
				}
				end = o + w
				c := src[o]
				if c < utf8.RuneSelf && (isNameByte(c) || isWS(c) || strings.IndexByte("\",=@{}%#()", c) >= 0) {
					fail(x, "but %q is legal", c)
				}
			}
		case token.DoubleQuote:
			noLit()
			text(`"`)
		case token.StringLBrace:
			noLit()
			text("{")
		case token.StringRBrace:
			noLit()
			text("}")
		case token.StringContents:
			text(x.lit)
			all(x.lit, func(c byte) bool { return !special(c) })
			if end < len(src) && !special(src[end]) {
				fail(x, "is cut short")
			}
		case token.StringMath:
			text("$" + x.lit + "$")
			for j := 0; j < len(x.lit); j++ {
				if x.lit[j] == '\\' {
					j++
				} else if x.lit[j] == '$' {
					fail(x, "runs past its closing dollar sign")
				}
			}
		case token.StringBackslash:
			text(x.lit)
			if len(x.lit) != 2 || x.lit[0] != '\\' || strings.IndexByte(escapeChars, x.lit[1]) < 0 {
				fail(x, "is not an escape")
			}
		case token.StringMacro:
			name := strings.TrimPrefix(x.lit, `\`)
			text(`\` + name)
			if len(name) == 0 {
				fail(x, "has no name")
			}
			if isLetterByte(name[0]) {
				all(name, isLetterByte)
				if end < len(src) && isLetterByte(src[end]) {
					fail(x, "is cut short")
				}
			} else if len(name) != 1 {
				fail(x, "is not a macro")
			}
		case token.StringAccent:
			end = o + accentLen(src[o:])
			if end == o {
				fail(x, "source %q is not an accent", clip(src[o:], 12))
			}
			if norm := normAccent(src[o:end]); normAccent(x.lit) != norm {
				fail(x, "source has %q", src[o:end])
			}
		case token.StringSpace:
			end = o
			for end < len(src) && isWS(src[end]) {
				end++
			}
			if end == o {
				fail(x, "source has %q", clip(src[o:], 10))
			}
			if x.lit != "" && x.lit != src[o:end] {
				fail(x, "source has %q", src[o:end])
			}
		case token.StringComma:
			text(",")
		case token.StringNBSP:
			text("~")
		case token.StringHyphen:
			text("-")
		default:
			fail(x, "unknown token")
		}
		// string state
		switch {
		case !inStr && (x.tok == token.DoubleQuote || x.tok == token.StringLBrace):
			inStr, quote, depth = true, x.tok == token.DoubleQuote, 0
		case inStr && x.tok == token.StringLBrace:
			depth++
		case inStr && x.tok == token.StringRBrace:
			if depth == 0 && !quote {
				inStr = false
			} else {
				depth--
			}
		case inStr && x.tok == token.DoubleQuote:
			if !quote || depth != 0 {
				fail(x, "does not close a string")
			}
			inStr = false
		}
		reports = run.counts[i]
	}
	// every illegal token has a report of its own
	n := 0
	for _, x := range run.toks {
		if x.tok == token.Illegal {
			n++
		}
	}
	if n > run.count {
		t.Fail("mode %d: %d illegal tokens but %d reports", mode, n, run.count)
	}
}

// checkClass decides whether a token's class is that of the place it stands at.
func checkClass(t *T, tok token.Token, str bool) {
	want := "literal"
	switch tok {
	case token.Illegal, token.EOF, token.TexComment:
		want = ""
	case token.BibEntry, token.Abbrev, token.Preamble, token.Comment:
		want = "command"
	case token.Comma, token.Assign, token.LParen, token.LBrace, token.RParen, token.RBrace, token.Concat:
		want = "operator"
	case token.DoubleQuote, token.StringLBrace:
		want = "string literal"
	default:
		if str {
			want = "string literal"
		}
	}
	for _, c := range []struct {
		name string
		is   bool
	}{{"literal", tok.IsLiteral()}, {"string literal", tok.IsStringLiteral()}, {"operator", tok.IsOperator()}, {"command", tok.IsCommand()}} {
		if c.is != (c.name == want) {
			t.Fail("the token %s is a %s: %v, but it stands for a %q", tok, c.name, c.is, want)
		}
	}
	if n := tok.String(); n == "" || strings.Contains(n, "(") {
		t.Fail("the token %d has no name: %q", int(tok), n)
	}
	t.Event("token class", 1)
}

// accentLen returns the length of the accent at the start of s, or 0.
// malformedEnd returns the end of the malformed construct of a string that
// begins at o: the first character that can't belong to it.
func malformedEnd(src string, o int, quote bool) int {
	at := func(i int) byte {
		if i < len(src) {
			return src[i]
		}
		return 0
	}
	i := o + 1
	switch at(o) {
	case '$':
		for i < len(src) && src[i] != '$' && src[i] != '\n' {
			if src[i] == '\\' && i+1 < len(src) {
				i++
			}
			_, w := utf8.DecodeRuneInString(src[i:])
			i += w
		}
	case '\\':
		if strings.IndexByte("'^.`~\"c", at(i)) >= 0 && !(at(i) == 'c' && isLetterByte(at(i+1)) && isLetterByte(at(i+2))) {
			i++
			switch at(i) {
			case '{':
				i++
				if isLetterByte(at(i)) {
					i++
				}
			case ' ':
				for at(i) == ' ' {
					i++
				}
			}
			return i
		}
		for i < len(src) && strings.IndexByte("${},~\\ \t\r\n\x00", src[i]) < 0 && !(quote && src[i] == '"') {
			i++
		}
	default:
		_, w := utf8.DecodeRuneInString(src[o:])
		i = o + w
	}
	return i
}

func accentLen(s string) int {
	if len(s) < 3 || s[0] != '\\' || strings.IndexByte("'c^.`~\"", s[1]) < 0 {
		return 0
	}
	i := 2
	if s[i] == '{' {
		if len(s) < 5 || !isLetterByte(s[3]) || s[4] != '}' {
			return 0
		}
		return 5
	}
	for i < len(s) && s[i] == ' ' {
		i++
	}
	if i < len(s) && isLetterByte(s[i]) {
		return i + 1
	}
	return 0
}

// normAccent reduces the spellings of an accent to one.
func normAccent(s string) string {
	if len(s) < 3 {
		return s
	}
	return s[:2] + strings.Trim(s[2:], "{} ")
}

// ---------------------------------------------------------------------------
// C10

var errRead = errors.New("injected read fault")

// chunkReader delivers data in random pieces and ends with err.
type chunkReader struct {
	t        *T
	data     string
	err      error
	withData bool // deliver err together with the last data
	max      int
	reads    int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	r := c.t.R
	if len(c.data) == 0 {
		return 0, c.err
	}
	if r.IntN(6) == 0 {
		return 0, nil
	}
	n := min(1+r.IntN(c.max), len(p), len(c.data))
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.withData {
		return n, c.err
	}
	return n, nil
}

// passing fails once and delivers the rest of its data when it is read again.
type passing struct {
	chunkReader
	rest   string
	failed bool
}

func (p *passing) Read(b []byte) (int, error) {
	n, err := p.chunkReader.Read(b)
	if err != nil && !p.failed {
		p.failed = true
		p.data, p.err = p.rest, io.EOF
	}
	return n, err
}

// Readers with further methods, all of which do what they promise.
type sizedReader struct {
	*chunkReader
	size int64
}

func (s sizedReader) Len() int    { return len(s.data) }
func (s sizedReader) Size() int64 { return s.size }

type byteReader struct{ *chunkReader }

func (b byteReader) ReadByte() (byte, error) {
	if len(b.data) == 0 {
		return 0, b.err
	}
	c := b.data[0]
	b.data = b.data[1:]
	return c, nil
}

func (b byteReader) ReadRune() (rune, int, error) {
	if len(b.data) == 0 {
		return 0, 0, b.err
	}
	r, n := utf8.DecodeRuneInString(b.data)
	b.data = b.data[n:]
	return r, n, nil
}

func (b byteReader) ReadString(delim byte) (string, error) {
	i := strings.IndexByte(b.data, delim)
	s := b.data[:i+1]
	if i < 0 {
		s = b.data
	}
	b.data = b.data[len(s):]
	if i < 0 {
		return s, b.err
	}
	return s, nil
}

type writingReader struct{ *chunkReader }

func (w writingReader) WriteTo(to io.Writer) (int64, error) {
	var n int64
	b := make([]byte, 100)
	for {
		k, err := w.Read(b)
		if k > 0 {
			m, err := to.Write(b[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// describedReader describes itself: its name is no file and its text no source.
type describedReader struct{ *chunkReader }

func (d describedReader) String() string               { return "@garbage{" }
func (d describedReader) Name() string                 { return "/no/such/file.bib" }
func (d describedReader) Error() string                { return "no error" }
func (d describedReader) Bytes() []byte                { return []byte("@garbage{") }
func (d describedReader) Close() error                 { d.data, d.err = "", errRead; return nil }
func (d describedReader) MarshalText() ([]byte, error) { return []byte("@garbage{"), nil }

// parsingReader parses something else whenever it is read.
type parsingReader struct {
	*chunkReader
	parse func()
}

func (p parsingReader) Read(b []byte) (int, error) {
	p.parse()
	return p.chunkReader.Read(b)
}

// methodReader is c with further methods.
func methodReader(t *T, c *chunkReader, b *bibtex.Biber) (string, io.Reader) {
	switch t.R.IntN(5) {
	case 0:
		return "a reader that knows its size", sizedReader{c, int64(len(c.data))}
	case 1:
		return "a reader of bytes", byteReader{c}
	case 2:
		return "a reader that can write", writingReader{c}
	case 3:
		return "a reader with a description", describedReader{c}
	}
	n := 3
	return "a reader that parses", parsingReader{c, func() {
		if n--; n >= 0 {
			f, err := b.Parse(strings.NewReader("@inner{key, tag = 1}\n@other{two}"))
			if err != nil || len(f.Entries) != 2 {
				t.Fail("parsing inside a reader fails: %v", err)
			}
		}
	}}
}

func runC10(t *T) {
	var src string
	if t.R.IntN(2) == 0 {
		src = t.docFor()
	} else {
		src = hostile(t)
	}
	if t.R.IntN(40) == 0 {
		src = strings.Repeat(t.docFor()+"\n", 20)
	}
	if t.R.IntN(400) == 0 { // sizes at which buffers are full
		doc := t.docFor() + "\n"
		n := pick(t.R, []int{512, 4096, 8192, 1 << 15, 1 << 16}) + t.R.IntN(3) - 1
		src = strings.Repeat(doc, 1+n/len(doc))
		src += strings.Repeat(" ", max(0, n-len(src)))
		if t.R.IntN(2) == 0 {
			src = src[:n]
		}
		t.Event("large input", 1)
	}
	t.Input(src)
	mode := randMode(t) &^ mTrace
	strs := mode&mStrings != 0
	ref, refErr := t.parseDoc(src, mode)
	want := fullDump(ref, strs) + errText(refErr)
	same := func(what string, f *ast.File, err error) {
		t.Eval()
		if f == nil {
			t.Fail("%s: no tree", what)
		}
		if got := fullDump(f, strs) + errText(err); got != want {
			t.Fail("%s gives another result than a string\n%s", what, diff(want, got))
		}
	}
	parse := func(name string, s interface{}) (*ast.File, error) {
		t.Guard(len(src))
		return parser.ParseFile(gotok.NewFileSet(), name, s, mode)
	}
	reader := func(err error) *chunkReader {
		return &chunkReader{t: t, data: src, err: err, withData: t.R.IntN(2) == 0, max: 1 + t.R.IntN(pick(t.R, []int{1, 3, 100, 100000}))}
	}

	// A slice of a larger array, with canaries around it.
	const canary = 0xA5
	arr := bytes.Repeat([]byte{canary}, len(src)+64)
	copy(arr[32:], src)
	sl := arr[32 : 32+len(src)]
	if t.R.IntN(2) == 0 {
		sl = arr[32 : 32+len(src) : 32+len(src)]
	}
	f, err := parse("x.bib", sl)
	for i, c := range arr {
		if i < 32 || i >= 32+len(src) {
			if c != canary {
				t.Fail("parsing writes outside the caller's slice (at %d)", i-32)
			}
		} else if c != src[i-32] {
			t.Fail("parsing changes the caller's bytes (at %d)", i-32)
		}
	}
	same("a byte slice", f, err)
	for i := range arr {
		arr[i] = byte("}\"@x{"[i%5])
	}
	same("a byte slice that changes afterwards", f, err)
	t.Event("bytes changed after parsing", 1)

	buf := bytes.NewBufferString(src)
	f, err = parse("x.bib", buf)
	same("a buffer", f, err)
	t.Event("buffer", 1)
	buf.Reset()
	buf.WriteString(strings.Repeat("}", len(src)))
	same("a buffer that is reused afterwards", f, err)

	f, err = parse("x.bib", reader(io.EOF))
	same("a reader", f, err)
	t.Event("chunked reader", 1)

	f, err = parse("x.bib", strings.NewReader(src))
	same("a strings.Reader", f, err)

	if t.Idx%4000 == 77 {
		farSource(t)
	}

	what, rd0 := aReader(t.R, src)
	if rd0 == nil {
		of, err := os.CreateTemp("", "c10r")
		check(err)
		_, err = of.WriteString("skipped" + src)
		check(err)
		_, err = of.Seek(7, io.SeekStart)
		check(err)
		check(os.Remove(of.Name()))
		defer of.Close()
		rd0 = of
	}
	f, err = parse("x.bib", rd0)
	same(what, f, err)
	t.Event(what, 1)

	inner := bibtex.New(bibtex.WithParserMode(mode &^ mTrace))
	what, rd0 = methodReader(t, reader(io.EOF), inner)
	f, err = parse("x.bib", rd0)
	same(what, f, err)
	t.Event(what, 1)

	// Any name, which the tree and the errors then hold.
	name := fileName(t.R)
	if t.R.IntN(3) == 0 {
		name = pick(t.R, []string{"", "/", ".", "x.bib:1:2", "/no/such/dir/x.bib", "-", "a\x00b"})
	}
	if t.R.IntN(8) == 0 { // the name of a file with something else in it
		name = filepath.Join(os.TempDir(), fmt.Sprintf("c10-%d-%d-other.bib", os.Getpid(), t.Idx))
		check(os.WriteFile(name, []byte("@other{file, a = 1}"), 0o644))
		defer os.Remove(name)
		t.Event("name of another file", 1)
	}
	t.Guard(len(src))
	f, err = parser.ParseFile(gotok.NewFileSet(), name, pick(t.R, []interface{}{src, []byte(src), bytes.NewBufferString(src), reader(io.EOF)}), mode)
	if f != nil && f.Name != name {
		t.Fail("the tree of %q is named %q", name, f.Name)
	} else if f != nil {
		f.Name = "x.bib"
	}
	for _, e := range errList(err) {
		if e.Pos.Filename != name {
			t.Fail("an error about %q names %q", name, e.Pos.Filename)
		}
		e.Pos.Filename = "x.bib"
	}
	same(fmt.Sprintf("a source named %q", name), f, err)
	t.Event("any name", 1)

	// The entry point for readers.
	b := bibtex.New(append(idle(t, "parse"), bibtex.WithParserMode(mode))...)
	t.Guard(len(src))
	bf, berr := b.Parse(reader(io.EOF))
	t.Eval()
	if (berr == nil) != (refErr == nil) {
		t.Fail("Biber.Parse: error %v, ParseFile: %v", berr, refErr)
	}
	if berr == nil {
		bf.Name = "x.bib"
		same("Biber.Parse", bf, nil)
	} else if bf != nil {
		t.Fail("Biber.Parse returns a tree with an error")
	} else if strings.ReplaceAll("\n"+errText(refErr), "\nx.bib:", "\n") != "\n"+errText(berr) {
		t.Fail("Biber.Parse reports other errors\n%s---\n%s", errText(refErr), errText(berr))
	}

	// A file.
	if t.R.IntN(4) == 0 {
		name := filepath.Join(os.TempDir(), fmt.Sprintf("c10-%d-%d.bib", os.Getpid(), t.Idx))
		if t.R.IntN(2) == 0 {
			name = filepath.Join(os.TempDir(), fmt.Sprintf("c10-%d-%d", os.Getpid(), t.Idx)) + fileName(t.R)
			name = strings.Replace(name, "/c10", pick(t.R, []string{"/c10", "//c10", "/./c10"}), 1)
		}
		switch t.R.IntN(6) {
		case 0: // what comes through a pipe has no size
			check(syscall.Mkfifo(name, 0o600))
			done := make(chan bool)
			go func() {
				os.WriteFile(name, []byte(src), 0)
				close(done)
			}()
			f, err = parse(name, nil)
			if r, e := os.OpenFile(name, os.O_RDONLY|syscall.O_NONBLOCK, 0); e == nil { // let the writer go
				r.Close()
			}
			<-done
			check(os.Remove(name))
			t.Event("named pipe", 1)
		case 1:
			target := filepath.Join(os.TempDir(), fmt.Sprintf("c10-%d-%d.target", os.Getpid(), t.Idx))
			check(os.WriteFile(target, []byte(src), 0o400))
			check(os.Symlink(target, name))
			f, err = parse(name, nil)
			check(os.Remove(name))
			check(os.Remove(target))
			t.Event("link to a file", 1)
		default:
			check(os.WriteFile(name, []byte(src), 0o644))
			f, err = parse(name, nil)
			back, _ := os.ReadFile(name)
			check(os.Remove(name))
			if string(back) != src {
				t.Fail("parsing changes the file")
			}
		}
		if f == nil {
			t.Fail("a file: no tree (%v)", err)
		}
		if f.Name != name {
			t.Fail("file name %q, want %q", f.Name, name)
		}
		f.Name = "x.bib"
		t.Eval()
		if got := fullDump(f, strs) + strings.ReplaceAll(errText(err), name+":", "x.bib:"); got != want {
			t.Fail("a file gives another result than a string\n%s", diff(want, got))
		}
		t.Event("file", 1)
	}

	// Faults.
	noTree := func(what string, f *ast.File, err error, target error) {
		t.Eval()
		if f != nil {
			t.Fail("%s: a tree is returned", what)
		}
		if err == nil || target != nil && !errors.Is(err, target) {
			t.Fail("%s: error %v", what, err)
		}
	}
	fault := anyFault(t.R)
	for fault == io.EOF {
		fault = anyFault(t.R) // from a reader, that is no failure
	}
	rd := reader(fault)
	rd.data = src[:t.R.IntN(len(src)+1)]
	if rd.withData && len(rd.data) > 0 {
		t.Event("fault with data", 1)
	}
	cut := len(rd.data)
	rd2 := *rd
	f, err = parse(name, rd)
	noTree(fmt.Sprintf("read fault after %d bytes", cut), f, err, fault)
	t.Guard(len(src))
	bf, berr = b.Parse(&rd2)
	noTree(fmt.Sprintf("Biber.Parse, read fault after %d bytes", cut), bf, berr, fault)
	t.Event("read fault", 1)
	rd3 := reader(fault)
	rd3.data = src[:cut]
	what, rd0 = methodReader(t, rd3, inner)
	t.Guard(len(src))
	if t.R.IntN(2) == 0 {
		f, err = b.Parse(rd0)
	} else {
		f, err = parse(name, rd0)
	}
	noTree(fmt.Sprintf("%s, read fault after %d bytes", what, cut), f, err, fault)
	rd4 := &passing{chunkReader: *reader(fault), rest: src[cut:]}
	rd4.data = src[:cut]
	f, err = parse(name, rd4)
	noTree(fmt.Sprintf("a read fault after %d bytes that goes away", cut), f, err, fault)
	t.Event("fault that goes away", 1)
	switch t.R.IntN(8) {
	case 0:
		f, err = parse(filepath.Join(os.TempDir(), "no", "such.bib"), nil)
		noTree("a missing file", f, err, fs.ErrNotExist)
		t.Event("missing file", 1)
	case 1:
		f, err = parse(os.TempDir(), nil)
		noTree("a directory", f, err, nil)
	case 2:
		for _, s := range []interface{}{1, []rune(src), (*bytes.Buffer)(nil), []string{src}, struct{}{}, 'x', error(errRead)} {
			f, err = parse(pick(t.R, []string{"x.bib", name}), s)
			noTree(fmt.Sprintf("a source of type %T", s), f, err, nil)
		}
		t.Event("unsupported source", 1)
	}
	if refErr == nil && strings.Contains(want, " tag ") {
		t.Distinct(fmt.Sprintf("%d/%s", cut, src))
		t.Sample(src)
	}
}

// farSource delivers an input that is longer than what buffers hold.
func farSource(t *T) {
	d, e := t.docFor()+"\n", t.docFor()
	n := pick(t.R, []int{1 << 20, 1 << 21, 1 << 22}) + t.R.IntN(3) - 1
	fill := pick(t.R, []string{" ", "\n", "                     \n", "% a line of a comment\n"})
	e = strings.TrimPrefix(e, "\uFEFF")
	src := d + strings.Repeat(fill, n/len(fill)+1) + e
	t.Input(d + "... " + fmt.Sprint(n) + " ..." + e)
	mode := randMode(t) &^ mTrace
	sum := func(f *ast.File, err error) string {
		t.Eval()
		if f == nil {
			return errText(err)
		}
		last := ""
		if k := len(f.Comments); k > 0 {
			l := f.Comments[k-1].List
			last = fmt.Sprint(k, len(l), l[len(l)-1].Start)
		}
		return dumpFile(f, 1, dumpOpt{pos: true, raw: true, strings: mode&mStrings != 0}) + last + errText(err)
	}
	var want string
	for i, s := range []func() interface{}{
		func() interface{} { return src },
		func() interface{} { return []byte(src) },
		func() interface{} { return bytes.NewBufferString(src) },
		func() interface{} { return strings.NewReader(src) },
		func() interface{} {
			return &chunkReader{t: t, data: src, err: io.EOF, max: 1 + t.R.IntN(1<<20), withData: t.R.IntN(2) == 0}
		},
		func() interface{} {
			name := filepath.Join(os.TempDir(), fmt.Sprintf("c10f-%d-%d.bib", os.Getpid(), t.Idx))
			check(os.WriteFile(name, []byte(src), 0o644))
			f, err := os.Open(name)
			check(err)
			check(os.Remove(name))
			return f
		},
	} {
		t.Guard(len(src))
		from := s()
		f, err := parser.ParseFile(gotok.NewFileSet(), "x.bib", from, mode)
		t.Done()
		if c, ok := from.(*os.File); ok {
			_ = c.Close()
		}
		if got := sum(f, err); i == 0 {
			want = got
		} else if got != want {
			t.Fail("%d bytes as source %d (%T) give another result than as a string\n%s", len(src), i, from, diff(want, got))
		}
	}
	t.Guard(len(src))
	f, err := bibtex.New(bibtex.WithParserMode(mode)).Parse(strings.NewReader(src))
	t.Done()
	if err == nil {
		if got := sum(f, err); got != want {
			t.Fail("%d bytes through Biber.Parse give another result than as a string\n%s", len(src), diff(want, got))
		}
	}
	t.Event("source of a megabyte or more", 1)
}

// ---------------------------------------------------------------------------
// C12

// interleaved advances several scanners in turn, also from inside the error
// handlers of the others.
func interleaved(t *T, text func() string) {
	type one struct {
		s    scanner.Scanner
		src  string
		mode scanner.Mode
		file *gotok.File
		run  scanRun
		busy bool
		done bool
	}
	n := 2 + t.R.IntN(2)
	var all []*one
	fset := gotok.NewFileSet()
	total := 0
	for i := 0; i < n; i++ {
		o := &one{src: text(), mode: scanner.Mode(t.R.IntN(4))}
		if i > 0 && t.R.IntN(3) == 0 {
			o.src = near(t.R, all[0].src)
		}
		if len(o.src) > 20000 {
			o.src = o.src[:20000]
		}
		total += len(o.src)
		all = append(all, o)
	}
	t.Input(fmt.Sprintf("%q and %q", all[0].src, all[1].src))
	var step func(o *one)
	step = func(o *one) {
		if o.busy || o.done {
			return
		}
		o.busy = true
		pos, tok, lit := o.s.Scan()
		o.busy = false
		o.run.toks = append(o.run.toks, scanTok{int(pos) - o.file.Base(), tok, lit})
		o.done = tok == token.EOF || len(o.run.toks) > len(o.src)+3
	}
	t.Guard(total)
	for i, o := range all {
		o.file = fset.AddFile(caseFile, -1, len(o.src))
		other := all[(i+1)%n]
		o.busy = true
		o.s.Init(o.file, []byte(o.src), func(pos gotok.Position, msg string) {
			o.run.errs = append(o.run.errs, fmt.Sprintf("%v: %s", pos, msg))
			if other.file != nil && other.s.ErrorCount < 1000 && t.R.IntN(2) == 0 {
				step(other)
				t.Event("scanner used inside an error handler", 1)
			}
		}, o.mode)
		o.busy = false
	}
	for left := n; left > 0; {
		o := all[t.R.IntN(n)]
		if o.done {
			left = 0
			for _, x := range all {
				if !x.done {
					left++
					o = x
				}
			}
			if left == 0 {
				break
			}
		}
		for k := 1 + t.R.IntN(3); k > 0; k-- {
			step(o)
		}
	}
	t.Done()
	t.Eval()
	for _, o := range all {
		o.run.count = o.s.ErrorCount
		want := describeRun(t.scanAll(&scanner.Scanner{}, o.src, o.mode, true))
		if got := describeRun(&o.run); got != want {
			t.Fail("scanners used in turn: %q in mode %d gives\n%s", o.src, o.mode, diff(want, got))
		}
	}
	t.Event("scanners in turn", 1)
	t.Distinct(all[0].src + all[1].src)
}

func runC12(t *T) {
	text := func() string {
		if t.R.IntN(2) == 0 {
			return t.docFor()
		}
		return hostile(t)
	}
	if t.R.IntN(12) == 0 {
		interleaved(t, text)
		return
	}
	if t.R.IntN(3) > 0 {
		var s scanner.Scanner
		history := ""
		var lastFile *gotok.File
		lastSrc := ""
		for n := 1 + t.R.IntN(4); n > 0; n-- {
			src := text()
			t.Input(history + src)
			t.Guard(len(src))
			mode := scanner.Mode(t.R.IntN(4)) | scanner.ScanStrings
			if t.R.IntN(4) == 0 {
				mode = 0
			}
			var run scanRun
			lastFile, lastSrc = initScan(&s, src, mode, t.R.IntN(2) == 0, &run), src
			var last token.Token
			k := t.R.IntN(len(src)/2 + 2)
			for i := 0; i < k; i++ {
				_, last, _ = s.Scan()
				if last == token.EOF {
					break
				}
			}
			if last.IsStringLiteral() {
				t.Event("cut inside a string", 1)
			}
			if s.ErrorCount > 0 {
				t.Event("cut after an error", 1)
			}
			history += fmt.Sprintf("%q cut after %d tokens in mode %d; ", src, k, mode)
			if last != token.EOF {
				t.Distinct(history)
			}
		}
		src := text()
		mode := scanner.Mode(t.R.IntN(4))
		t.Input(history + fmt.Sprintf("%q", src))
		file := gotok.NewFileSet().AddFile(caseFile, -1, len(src))
		if t.R.IntN(3) == 0 {
			// The same file again, or one that differs in a few letters.
			src, file = lastSrc, lastFile
			if t.R.IntN(2) == 0 {
				src = near(t.R, src)
			}
			t.Input(history + fmt.Sprintf("%q in the same file", src))
			t.Event("scanner reused for the same file", 1)
		}
		want := describeRun(t.scanAll(&scanner.Scanner{}, src, mode, true))
		got := describeRun(t.scanFile(&s, file, src, mode, true))
		if want != got {
			t.Fail("a reused scanner differs from a new one\n%s", diff(want, got))
		}
		t.Event("scanner reused", 1)
		t.Sample(history)
		return
	}
	if t.Idx%400 == 0 {
		otherOrder(t)
		return
	}
	// Repeated parsing, resolving and rendering with one shared instance.
	b := sharedInstance()
	once := func(src string) string {
		t.Guard(len(src))
		t.Eval()
		t.Event("parse repeated", 1)
		out, done := process(b, src)
		if done {
			t.Event("render repeated", 1)
			t.Event("resolve repeated", 1)
		}
		return out
	}
	g := newGen(t.R, false)
	g.okAcc = t.R.IntN(3) > 0
	a := g.docN(1 + t.R.IntN(3)).emit(randLayout(t.R))
	if t.R.IntN(4) == 0 {
		a = hostile(t)
	}
	t.Input(a)
	want := once(a)
	// An expression, also with where it says its parts are.
	expr := func(src string) string {
		x, err := t.parseExpr(src)
		if err != nil {
			return errText(err)
		}
		return dumpExpr(x, 1, dumpOpt{strings: true, pos: true}) + asts.ExprString(x)
	}
	ea := exprSource(t, g)
	t.Input(ea)
	wantE := expr(ea)
	for n := t.R.IntN(3); n > 0; n-- {
		x := text()
		if t.R.IntN(3) == 0 {
			x = near(t.R, a)
		}
		t.Input(x)
		once(x)
		if t.R.IntN(2) == 0 {
			expr(x)
		} else {
			expr(exprSource(t, g))
		}
	}
	t.Input(ea)
	if got := expr(ea); got != wantE {
		t.Fail("an expression parsed a second time differs\n%s", diff(wantE, got))
	}
	t.Event("expression repeated", 1)
	t.Input(a)
	if got := once(a); got != want {
		t.Fail("a second run differs\n%s", diff(want, got))
	}
	t.Distinct(a)
}

// exprSource is the source of an expression, usually well-formed.
func exprSource(t *T, g *gen) string {
	x := g.value()
	d := &mDoc{decls: []*mDecl{{kind: 'p', typ: "preamble", text: x}}}
	d.emit(randLayout(t.R))
	s := d.src[x.start():x.end()]
	if t.R.IntN(5) == 0 {
		s = mutate(t.R, s)
	}
	return s
}

func sharedInstance() *bibtex.Biber {
	return bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewAuthorResolver("author", "editor"), bibtex.NewRenderParsedTextResolver()))
}

// process parses, renders and resolves src and describes all results.
func process(b *bibtex.Biber, src string) (out string, done bool) {
	f, err := b.Parse(strings.NewReader(src))
	out = errText(err)
	if err != nil {
		return out, false
	}
	var w strings.Builder
	rerr := b.Render(&w, f)
	out += fullDump(f, true) + w.String() + fmt.Sprint(rerr)
	es, err := b.Resolve(f)
	return out + describeEntries(es) + fmt.Sprint(err) + fullDump(f, true), true
}

// near exchanges a few letters and digits of src for others.
func near(r *rand.Rand, src string) string {
	b := []byte(src)
	var at []int
	for i, c := range b {
		if isLetterByte(c) || '0' <= c && c <= '9' {
			at = append(at, i)
		}
	}
	for n := 1 + r.IntN(4); n > 0 && len(at) > 0; n-- {
		i := pick(r, at)
		switch {
		case '0' <= b[i] && b[i] <= '9':
			b[i] = byte('0' + r.IntN(10))
		case r.IntN(3) == 0:
			b[i] ^= 0x20 // the other letter case
		case b[i] >= 'a':
			b[i] = byte('a' + r.IntN(26))
		default:
			b[i] = byte('A' + r.IntN(26))
		}
	}
	return string(b)
}

// otherOrder processes a list of inputs, many of them alike, and has another
// process process them in the opposite order.
func otherOrder(t *T) {
	var list []string
	for len(list) < 150 {
		var x string
		switch {
		case len(list) > 0 && t.R.IntN(3) > 0:
			x = near(t.R, pick(t.R, list))
		case t.R.IntN(4) == 0:
			x = hostile(t)
		default:
			g := newGen(t.R, false)
			g.okAcc = t.R.IntN(3) > 0
			x = g.docN(1 + t.R.IntN(2)).emit(randLayout(t.R))
		}
		if len(x) < 4000 {
			list = append(list, x)
		}
	}
	in, err := json.Marshal(toBytes(list))
	check(err)
	cmd := exec.Command(os.Args[0], "-reverse")
	cmd.Stdin = bytes.NewReader(in)
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		t.Fail("another process that handles the same inputs in the opposite order dies: %v", err)
	}
	var other [][]byte
	check(json.Unmarshal(raw, &other))
	b := sharedInstance()
	for i, src := range list {
		t.Input(src)
		t.Guard(len(src))
		got, _ := process(b, src)
		t.Eval()
		if want := string(other[i]); got != want {
			t.Fail("the result depends on what was processed before\n%s", diff(want, got))
		}
		t.Distinct(src)
	}
	t.Event("processed in two orders by two processes", len(list))
}

func toBytes(list []string) [][]byte {
	var out [][]byte
	for _, s := range list {
		out = append(out, []byte(s))
	}
	return out
}

// reverse is the other process.
func reverse() {
	var list [][]byte
	check(json.NewDecoder(os.Stdin).Decode(&list))
	stdout := os.Stdout
	silence()
	b := sharedInstance()
	out := make([][]byte, len(list))
	for i := len(list) - 1; i >= 0; i-- {
		s, _ := process(b, string(list[i]))
		out[i] = []byte(s)
	}
	check(json.NewEncoder(stdout).Encode(out))
}

func describeEntries(es []bibtex.Entry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%q %q", e.Type, e.Key)
		var names []string
		for n := range e.Tags {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			fmt.Fprintf(&b, " %q=%s", n, dumpExpr(e.Tags[n], 1, dumpOpt{strings: true}))
		}
		b.WriteByte('\n')
	}
	return b.String()
}

var _ = goscan.ErrorList{}
