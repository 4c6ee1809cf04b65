package main

import (
	goscan "go/scanner"
	gotok "go/token"
	"math/rand/v2"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

const (
	mComments = parser.ParseComments
	mStrings  = parser.ParseStrings
	mTrace    = parser.Trace
	mDeclErr  = parser.DeclarationErrors
	mAll      = parser.AllErrors
)

// caseFile is the name of the sources that the case parses or scans.
var caseFile = "x.bib"

func sourceName(r *rand.Rand) string {
	s := fileName(r)
	switch r.IntN(8) {
	case 0:
		return pick(r, []string{"", "-", ".", "/", "<stdin>", "x.bib:3:4", `C:\x.bib`, "é/x.bib", "\xff"})
	case 1:
		return strings.Repeat(pick(r, []string{"ab", "é", "../", "x/"}), 5+r.IntN(40)) + s
	case 2:
		return pick(r, []string{"é", "dir", "..", "", "a.b", "."}) + "/" + s
	case 3:
		return "//" + s
	}
	return s
}

// parseDoc parses src as the only file of a file set. The base of its positions
// is 1, the offset of its first byte is 0.
func (t *T) parseDoc(src string, mode parser.Mode) (*ast.File, error) {
	t.Guard(len(src))
	f, err := parser.ParseFile(gotok.NewFileSet(), caseFile, src, mode)
	t.Done()
	t.Eval()
	if f == nil {
		t.Fail("ParseFile returned no file (err %v)", err)
	}
	return f, err
}

func (t *T) parseExpr(src string) (ast.Expr, error) {
	t.Guard(len(src))
	x, err := parser.ParseExpr(src)
	t.Done()
	t.Eval()
	return x, err
}

// mustParse parses a source that is well-formed by construction.
func (t *T) mustParse(src string, mode parser.Mode) *ast.File {
	t.Input(src)
	f, err := t.parseDoc(src, mode)
	if err != nil {
		t.Fail("a well-formed document is rejected: %v", err)
	}
	return f
}

func errList(err error) goscan.ErrorList {
	if err == nil {
		return nil
	}
	l, _ := err.(goscan.ErrorList)
	return l
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	s := ""
	for _, e := range errList(err) {
		s += e.Error() + "\n"
	}
	if s == "" {
		s = err.Error()
	}
	return s
}

func modeOf(m int) parser.Mode { return parser.Mode(m) }
