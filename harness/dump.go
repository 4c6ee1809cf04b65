package main

import (
	"fmt"
	gotok "go/token"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

// Canonical descriptions of syntax trees, in the same form as those of models.

type treeDump struct {
	o    dumpOpt
	base int // file base in the file set
	b    strings.Builder
}

func (d *treeDump) at(p gotok.Pos) string {
	if !d.o.pos {
		return ""
	}
	return fmt.Sprintf("@%d", int(p)-d.base-d.o.base)
}

func dumpFile(f *ast.File, base int, o dumpOpt) string {
	d := &treeDump{o: o, base: base}
	for _, dc := range f.Entries {
		d.decl(dc)
	}
	return d.b.String()
}

func dumpDecl(dc ast.Decl, base int, o dumpOpt) string {
	d := &treeDump{o: o, base: base}
	d.decl(dc)
	return d.b.String()
}

func dumpExpr(x ast.Expr, base int, o dumpOpt) string {
	d := &treeDump{o: o, base: base}
	d.expr(x)
	return d.b.String()
}

func (d *treeDump) docText(g *ast.TexCommentGroup) string {
	if !d.o.docs {
		return ""
	}
	s := " doc="
	if g != nil {
		for _, c := range g.List {
			s += fmt.Sprintf("[%d %q]", int(c.Start)-d.base, c.Text)
		}
	}
	return s
}

func (d *treeDump) decl(dc ast.Decl) {
	b := &d.b
	switch t := dc.(type) {
	case *ast.AbbrevDecl:
		fmt.Fprintf(b, "string%s close%s%s\n", d.at(t.Entry), d.at(t.RBrace), d.docText(t.Doc))
		d.tag(t.Tag)
	case *ast.PreambleDecl:
		fmt.Fprintf(b, "preamble%s close%s%s\n  ", d.at(t.Entry), d.at(t.RBrace), d.docText(t.Doc))
		d.expr(t.Text)
		b.WriteByte('\n')
	case *ast.BibDecl:
		fmt.Fprintf(b, "entry %q%s close%s%s\n", t.Type, d.at(t.Entry), d.at(t.RBrace), d.docText(t.Doc))
		if t.Key != nil {
			fmt.Fprintf(b, "  key %q%s\n", t.Key.Name, d.at(t.Key.NamePos))
		}
		for _, k := range t.ExtraKeys {
			fmt.Fprintf(b, "  extra key %q%s\n", k.Name, d.at(k.NamePos))
		}
		for _, tag := range t.Tags {
			d.tag(tag)
		}
	case *ast.BadDecl:
		fmt.Fprintf(b, "baddecl%s to%s\n", d.at(t.From), d.at(t.To))
	default:
		fmt.Fprintf(b, "unknown decl %T\n", dc)
	}
}

func (d *treeDump) tag(t *ast.TagStmt) {
	raw := ""
	if d.o.raw {
		raw = fmt.Sprintf(" raw=%q", t.RawName)
	}
	fmt.Fprintf(&d.b, "  tag %q%s%s%s = ", t.Name, d.at(t.NamePos), raw, d.docText(t.Doc))
	d.expr(t.Value)
	d.b.WriteByte('\n')
}

func (d *treeDump) expr(x ast.Expr) {
	b := &d.b
	switch t := x.(type) {
	case *ast.Number:
		fmt.Fprintf(b, "num(%q)%s", t.Value, d.at(t.ValuePos))
	case *ast.Ident:
		fmt.Fprintf(b, "id(%q)%s", t.Name, d.at(t.NamePos))
	case *ast.ConcatExpr:
		b.WriteByte('(')
		d.expr(t.X)
		fmt.Fprintf(b, " #%s ", d.at(t.OpPos))
		d.expr(t.Y)
		b.WriteByte(')')
	case *ast.UnparsedText:
		delim := "brace"
		if t.Type == token.String {
			delim = "quote"
		} else if t.Type != token.BraceString {
			delim = t.Type.String()
		}
		fmt.Fprintf(b, "raw(%s %q)%s", delim, t.Value, d.at(t.ValuePos))
	case *ast.ParsedText:
		delim := "brace"
		if t.Delim == ast.QuoteDelimiter {
			delim = "quote"
		}
		fmt.Fprintf(b, "str%s(%s %d", d.at(t.Opener), delim, t.Depth)
		for _, v := range t.Values {
			b.WriteByte(' ')
			d.expr(v)
		}
		fmt.Fprintf(b, ")%s", d.at(t.Closer))
	case *ast.Text:
		fmt.Fprintf(b, "text%s(%q)", d.at(t.ValuePos), t.Value)
	case *ast.TextSpace:
		fmt.Fprintf(b, "space%s", d.at(t.ValuePos))
	case *ast.TextComma:
		fmt.Fprintf(b, "comma%s", d.at(t.ValuePos))
	case *ast.TextNBSP:
		fmt.Fprintf(b, "nbsp%s", d.at(t.ValuePos))
	case *ast.TextHyphen:
		fmt.Fprintf(b, "hyphen%s", d.at(t.ValuePos))
	case *ast.TextMath:
		fmt.Fprintf(b, "math%s(%q)", d.at(t.ValuePos), t.Value)
	case *ast.TextEscaped:
		fmt.Fprintf(b, "esc%s(%q)", d.at(t.ValuePos), t.Value)
	case *ast.TextAccent:
		if t.Text == nil {
			b.WriteString("accent without text")
			return
		}
		fmt.Fprintf(b, "accent%s(%q %q%s)", d.at(t.ValuePos), rune(t.Accent), t.Text.Value, d.at(t.Text.ValuePos))
	case *ast.TextMacro:
		if len(t.Values) == 0 {
			fmt.Fprintf(b, "macro%s(%q)", d.at(t.Cmd), t.Name)
			return
		}
		fmt.Fprintf(b, "macro%s(%q", d.at(t.Cmd), t.Name)
		for _, v := range t.Values {
			b.WriteByte(' ')
			d.expr(v)
		}
		fmt.Fprintf(b, " end%s)", d.at(t.RBrace))
	case *ast.BadExpr:
		fmt.Fprintf(b, "badexpr%s to%s", d.at(t.From), d.at(t.To))
	case ast.Authors:
		b.WriteString("authors[")
		for _, a := range t {
			d.expr(a)
			b.WriteByte(';')
		}
		b.WriteByte(']')
	case *ast.Author:
		b.WriteString("author(")
		for _, e := range []ast.Expr{t.First, t.Prefix, t.Last, t.Suffix} {
			if e == nil {
				b.WriteString("nil")
			} else {
				d.expr(e)
			}
			b.WriteByte('|')
		}
		b.WriteByte(')')
	case nil:
		b.WriteString("nil")
	default:
		fmt.Fprintf(b, "unknown expr %T", x)
	}
}

// dumpComments describes a file's comment list.
func dumpComments(f *ast.File, base int) string {
	var b strings.Builder
	for _, g := range f.Comments {
		b.WriteByte('{')
		for _, c := range g.List {
			fmt.Fprintf(&b, "[%d %q]", int(c.Start)-base, c.Text)
		}
		b.WriteString("}\n")
	}
	return b.String()
}

func (d *mDoc) dumpComments() string {
	var b strings.Builder
	for _, g := range d.groups {
		fmt.Fprintf(&b, "{%s}\n", d.docText(g))
	}
	return b.String()
}

// diff shows where two descriptions part.
func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := max(0, i-120)
	return fmt.Sprintf("want ...%s\n got ...%s", clip(want[lo:], 400), clip(got[lo:], 400))
}
