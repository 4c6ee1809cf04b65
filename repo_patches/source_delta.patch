From 8dbac43116863f5c3814eb9b30ae81663c328b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 01/43] fix: do not panic on an unterminated string literal

The literal was sliced as if a closing delimiter had been consumed, which
dropped its last byte or panicked when the literal was empty.
---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..b41df15 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From 4b8497231c421c57b9d9d4f950b5225025e27464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 02/43] fix: count every brace of an unparsed brace string

The character after a nested '{' was skipped unseen, so {a{}b} and {{{a}}}
lost track of the brace depth and swallowed or cut off the rest of the entry.
Counting the depth also avoids copying every nested group once per level.
---
 scanner/scanner.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b41df15..e403031 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -250,19 +250,18 @@ func (s *Scanner) scanNumber() string {
 func (s *Scanner) scanBraceString() string {
 	offs := s.offset
 
-	for {
+	for depth := 0; depth >= 0; {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
 			return string(s.src[offs:s.offset])
 		}
 		s.next()
-		if ch == '}' {
-			break
-		}
-		if ch == '{' {
-			s.next()
-			s.scanBraceString()
+		switch ch {
+		case '}':
+			depth--
+		case '{':
+			depth++
 		}
 	}
 	return string(s.src[offs : s.offset-1])
-- 
2.43.0


From d0ac02755260c90b8f1d57cd43b21b7caf9656de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 03/43] fix: reset the string state when a scanner is
 initialised again

Init promises to initialise all fields since a scanner may be reused, but the
previous token, end quote and brace depth survived from the earlier source.
---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index e403031..0605f6b 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From a0dab539561b2f84560e37704186d120ca5a98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 04/43] fix: check the first character of an entry type

The character after '@' was skipped unchecked, so one-letter types like @a{...}
were rejected while '@1article' and '@ article' were accepted with the digit or
blank as part of the type.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 0605f6b..3ef4453 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -201,7 +201,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From cb5547d9ead1873c5372fb93f67b06adc6ac052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 05/43] fix: require a letter after an accent followed by
 spaces

Unlike the other two accent forms this one took whatever byte came next: it
panicked at the end of the input, swallowed closing delimiters and split
multi-byte characters.
---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 3ef4453..50b6584 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -366,8 +366,12 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if !IsAsciiLetter(s.ch) {
+			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", tokStr, s.ch)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
-		tokStr += string(s.src[s.offset])
+		tokStr += string(s.ch)
 		s.next() // consume the letter that's accented
 		return token.StringAccent, tokStr
 	} else {
-- 
2.43.0


From a89d9fb0e39032dd09af31fc9d832bff66fec722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 06/43] fix: scan macros that begin with a c as macros

Every macro starting with c, like \cite or \copyright, was scanned as a cedilla
over its second letter followed by the rest of its name as text.
---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 50b6584..3f4a94d 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -308,8 +308,12 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 		// a single non-alphabetical character
 		s.next()
 		return token.StringBackslash, string(s.src[offs:s.offset])
+	case rune(token.AccentCedilla):
+		// Two or more letters after the c make it a macro, like \cite.
+		if rest := s.src[s.rdOffset:]; len(rest) < 2 || !IsAsciiLetter(rune(rest[0])) || !IsAsciiLetter(rune(rest[1])) {
+			return s.scanSpecialCharStringAccent()
+		}
 	case rune(token.AccentAcute),
-		rune(token.AccentCedilla),
 		rune(token.AccentCircumflex),
 		rune(token.AccentDot),
 		rune(token.AccentGrave),
-- 
2.43.0


From 0b557f04609a2933f3beb8737ddcaf4592b91bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 07/43] fix: recognise a brace string after #, ( and a comment

Only a brace right after = or { was taken for a string, so values like
"a" # {b}, @preamble({a}) and a brace string on the line after a comment were
rejected.
---
 scanner/scanner.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 3f4a94d..2e0a76c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -536,10 +536,11 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 			}
 		case '{':
 			// Use a heuristic to determine whether this brace is for declaration or
-			// a brace string. If preceded by '=', it's a string for a tag. If
-			// preceded by an LBrace, it's a value in a block like:
+			// a brace string. If preceded by '=' or '#', it's a string for a tag. If
+			// preceded by an LBrace or LParen, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			switch s.prev {
+			case token.Assign, token.Concat, token.LBrace, token.LParen:
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
@@ -547,7 +548,7 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 					tok = token.BraceString
 					lit = s.scanBraceString()
 				}
-			} else {
+			default:
 				tok = token.LBrace
 			}
 		case '}':
@@ -572,6 +573,8 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	if tok != token.TexComment { // a comment doesn't change what a brace means
+		s.prev = tok
+	}
 	return
 }
-- 
2.43.0


From 40d31ebce97fa5af2812c95b7e5564056ba41d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:23 +0000
Subject: [PATCH 08/43] fix: keep a cite key that starts with a digit in one
 piece

A key like 10.1145/3318464 or 2020abc was split into a number and a name, and
only the name was kept as the key.
---
 scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 2e0a76c..202835f 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -500,6 +500,10 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 	case isDecimal(ch):
 		tok = token.Number
 		lit = s.scanNumber()
+		if IsName(s.ch) { // a name that starts with a digit, like 10.1145/12
+			tok = token.Ident
+			lit += s.scanIdent()
+		}
 
 	case IsName(ch):
 		tok = token.Ident
-- 
2.43.0


From 318c37b5739b07e51cff291899460554db529f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 09/43] fix: stop at the end of the input inside a parsed
 string

Inside a string the scanner reported the end of the input as an illegal
character, over and over, and the parser kept appending to the tree: any
unterminated string literal made ParseFile run out of memory.
---
 parser/parser.go   | 6 +++++-
 scanner/scanner.go | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..a917561 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -452,6 +452,10 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 
 		values := make([]ast.Expr, 0, 2)
 		for p.tok != token.StringRBrace {
+			if p.tok == token.EOF {
+				p.errorExpected(p.pos, "right brace")
+				return &ast.BadExpr{From: opener, To: p.pos}
+			}
 			text := p.parseText(depth + 1)
 			if _, ok := text.(*ast.BadExpr); ok {
 				p.next()
diff --git a/scanner/scanner.go b/scanner/scanner.go
index 202835f..b8c2e50 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -427,6 +427,10 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 	ch := s.ch
 	s.next()
 	switch ch {
+	case eof:
+		s.errorf(s.file.Offset(pos), "string literal not terminated")
+		s.endQuoteCh = 0
+		tok = token.EOF
 	case '$':
 		tok, lit = s.scanStringMath()
 	case '"':
-- 
2.43.0


From 0ee2c582b834e9bf6ee928b9052959f58bcb52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 10/43] fix: put a BadExpr in the partial tree for an
 unexpected token in a string

The parser added a nil expression, so walking the partial tree panicked.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index a917561..779c176 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -475,6 +475,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
-- 
2.43.0


From cb5c33c162b75892738096abe3fc6cc5061adf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 11/43] fix: return the errors of an expression with many
 errors

After ten errors the parser bails out with a panic that only ParseFile
recovered, so ParseExpr panicked.
---
 parser/interface.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..3676036 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,20 +107,27 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (expr ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+		}
+		p.errors.Sort()
+		if err = p.errors.Err(); err != nil {
+			expr = nil
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
-	expr := p.parseExpr()
-	p.errors.Sort()
-	err := p.errors.Err()
-	if err != nil {
-		return nil, err
-	}
-	return expr, nil
+	expr = p.parseExpr()
+	return
 }
 
 // ParsePackage calls ParseFile for all files specified by paths.
-- 
2.43.0


From f54d3f3e6469f652f94fc4d3a3435f743bc1091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 12/43] fix: report text after the end of an expression

ParseExpr ignored everything after the first expression, so "{a} } junk" was
accepted as {a}.
---
 parser/interface.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/interface.go b/parser/interface.go
index 3676036..ac3a599 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -9,6 +9,7 @@ import (
 	"os"
 
 	"github.com/jschaf/bibtex/ast"
+	"github.com/jschaf/bibtex/token"
 )
 
 // If src != nil, readSource converts src to a []byte if possible;
@@ -127,6 +128,9 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
 	expr = p.parseExpr()
+	if p.tok != token.EOF {
+		p.errorExpected(p.pos, "end of expression")
+	}
 	return
 }
 
-- 
2.43.0


From fe180dc7ba2a8fcdb958ba36b4d568fbbbd3964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:32 +0000
Subject: [PATCH 13/43] fix: parse a concatenation that starts with a parsed
 string

---
 parser/parser.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 779c176..04bd0ea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -576,16 +576,6 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	switch {
 	case p.tok.IsLiteral():
 		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
 
 	case p.tok.IsStringLiteral():
 		x = p.parseStringLiteral()
@@ -597,6 +587,18 @@ func (p *parser) parseExpr() (x ast.Expr) {
 			To:   p.pos,
 		}
 		p.next() // make progress
+		return
+	}
+
+	if p.tok == token.Concat {
+		opPos := p.pos
+		p.next()
+		y := p.parseExpr()
+		x = &ast.ConcatExpr{
+			X:     x,
+			OpPos: opPos,
+			Y:     y,
+		}
 	}
 	return
 }
-- 
2.43.0


From 60a30523b0544873b19741bc2d9beab6226d7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 14/43] fix: only bare names are cite keys, and keep the last
 one

---
 parser/parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 04bd0ea..bd6ebe4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -781,21 +781,22 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 				Value:   fixVal,
 			}
 			tags = append(tags, tag)
+			p.expectOptional(token.Comma)
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
-		default:
-			// Keep going.
+			switch p.tok {
+			case token.Comma:
+				p.next()
+			case token.RBrace, token.RParen:
+				// comma is optional before a closing ')' or '}'
+			default:
+				p.errorExpected(p.pos, "'=', ',' or closing delimiter")
+			}
 		}
 	}
 	closer := p.expectCloser(opener)
-- 
2.43.0


From a68026e6a3fcf3d968ffa4783b635fb2355c363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 15/43] fix: resolve an entry without a cite key

---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 8e784aaeb15e4f85826c34dd417c6fd057772595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 16/43] fix: visit the files of a package in a reproducible
 order

---
 ast/ast.go  | 11 +++++++++++
 ast/walk.go |  4 ++--
 bibtex.go   |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ec8a0e7..276f29b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ package ast
 
 import (
 	gotok "go/token"
+	"sort"
 
 	"github.com/jschaf/bibtex/token"
 )
@@ -556,3 +557,13 @@ type Package struct {
 func (p *Package) Pos() gotok.Pos { return gotok.NoPos }
 func (p *Package) End() gotok.Pos { return gotok.NoPos }
 func (p *Package) Kind() NodeKind { return KindPackage }
+
+// FileNames returns the names of the files in the package in sorted order.
+func (p *Package) FileNames() []string {
+	names := make([]string, 0, len(p.Files))
+	for name := range p.Files {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..0616bcb 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -69,8 +69,8 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 				}
 			}
 		case *Package:
-			for _, file := range t.Files {
-				if st, err := walkHelper(file, walker); st == WalkStop || err != nil {
+			for _, name := range t.FileNames() {
+				if st, err := walkHelper(t.Files[name], walker); st == WalkStop || err != nil {
 					return st, err
 				}
 			}
diff --git a/bibtex.go b/bibtex.go
index 3fe4700..e148334 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -146,8 +146,8 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 	switch n := node.(type) {
 	case *ast.Package:
 		entries := make([]Entry, 0, len(n.Files)*4)
-		for _, file := range n.Files {
-			for _, decl := range file.Entries {
+		for _, name := range n.FileNames() {
+			for _, decl := range n.Files[name].Entries {
 				if decl, ok := decl.(*ast.BibDecl); ok {
 					entries = append(entries, b.resolveEntry(decl))
 				}
-- 
2.43.0


From c842626b8e8a369f41ad3f71098b9660905ee7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 17/43] fix: collect the files of a package under their names

---
 parser/interface.go | 2 +-
 parser/parser.go    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index ac3a599..d79979b 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -142,7 +142,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
diff --git a/parser/parser.go b/parser/parser.go
index bd6ebe4..238497d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -874,6 +874,7 @@ func (p *parser) parseFile() *ast.File {
 	}
 
 	return &ast.File{
+		Name:       p.file.Name(),
 		Doc:        doc,
 		Entries:    decls,
 		Scope:      p.pkgScope,
-- 
2.43.0


From 31844fec7dcbc9d8934f58997f53c14a38b8b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:14 +0000
Subject: [PATCH 18/43] fix: walk into the values of tags and abbreviations

---
 ast/walk.go | 12 ++++++++++++
 resolver.go |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 0616bcb..65141fd 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
diff --git a/resolver.go b/resolver.go
index 4786f0e..8cdd58d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -111,6 +111,9 @@ func (a AuthorResolver) Resolve(root ast.Node) error {
 		if !isEntering {
 			return ast.WalkSkipChildren, nil
 		}
+		if _, ok := n.(*ast.AbbrevDecl); ok {
+			return ast.WalkSkipChildren, nil // only entries have authors
+		}
 		if _, ok := n.(*ast.TagStmt); !ok {
 			return ast.WalkContinue, nil
 		}
-- 
2.43.0


From bbdc92824fd59caf039e95413583ae4015739805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 19/43] fix: render text and accents with the default renderers

---
 render/render.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..043d76c 100644
--- a/render/render.go
+++ b/render/render.go
@@ -100,9 +100,19 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(txt.Value)); err != nil {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	val := ""
+	switch t := n.(type) {
+	case *ast.Text:
+		val = t.Value
+	case *ast.TextAccent:
+		// Always use braces so that the accent doesn't run into the next text.
+		val = `\` + string(t.Accent) + `{` + t.Text.Value + `}`
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 7a7e90391f3b5d223838fad856f16e6fb37416d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 20/43] fix: render each leaf once, not on entering and leaving

---
 render/render.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/render/render.go b/render/render.go
index 043d76c..b155fb1 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,7 +60,10 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
 	_, _ = w.Write([]byte(ident.Name))
 	return ast.WalkContinue, nil
@@ -118,14 +121,20 @@ func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -133,7 +142,10 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
@@ -153,14 +165,20 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	sp := n.(*ast.TextSpace)
 	if _, err := w.Write([]byte(sp.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
-- 
2.43.0


From 0fb045f6ca1402d260c554183e8ae179de2b1b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 21/43] fix: render the content of math and the spaces of
 parsed text

---
 render/render.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index b155fb1..6f21c39 100644
--- a/render/render.go
+++ b/render/render.go
@@ -152,11 +152,14 @@ func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
 		if _, err := w.Write([]byte("$")); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
+		if _, err := w.Write([]byte(n.(*ast.TextMath).Value)); err != nil {
+			return ast.WalkStop, fmt.Errorf("default renderTextMath value: %w", err)
+		}
 	} else {
 		if _, err := w.Write([]byte("$")); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath right: %w", err)
@@ -180,7 +183,11 @@ func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, er
 		return ast.WalkContinue, nil
 	}
 	sp := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(sp.Value)); err != nil {
+	val := sp.Value
+	if val == "" {
+		val = " " // the parser doesn't keep the white space
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From a2327fe7c593e8c54d5fbcf63bc2dd3ac29ebe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 22/43] fix: report failed writes of names and concatenations

---
 render/render.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 6f21c39..0014718 100644
--- a/render/render.go
+++ b/render/render.go
@@ -65,7 +65,9 @@ func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error)
 		return ast.WalkContinue, nil
 	}
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -254,7 +256,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From bf5e5cbae36326fc7d5ee72edc9abe6a45e9a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 23/43] fix: an i with a dot accent is not a dotless i

---
 render/accent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/accent.go b/render/accent.go
index 4c87070..9978cc0 100644
--- a/render/accent.go
+++ b/render/accent.go
@@ -31,7 +31,7 @@ var accentMap = map[string]rune{
 	"cc": 'ç', "cC": 'Ç',
 
 	// AccentDot (.)
-	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'ı', ".z": 'ż',
+	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'i', ".z": 'ż',
 	".C": 'Ċ', ".E": 'Ė', ".G": 'Ġ', ".I": 'İ', ".Z": 'Ż',
 }
 
-- 
2.43.0


From 52bf34075f9219bd5d2323786478a1dd0526938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 24/43] fix: keep the whole suffix and first name after a comma

---
 author.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/author.go b/author.go
index 8582785..3c9b701 100644
--- a/author.go
+++ b/author.go
@@ -242,20 +242,18 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
-		suffix.WriteString(val)
+		jr := xs[commas[0]+1 : commas[1]]
+		for i := range jr {
+			suffix.WriteString(parseDefault(i, jr))
+		}
 		part2 = xs[commas[1]+1:]
 	}
 
-	idx2 := 0
 	first := strings.Builder{}
 	first.Grow(16)
-	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
-		if action == resolveNextPart {
-			break
-		}
-		first.WriteString(val)
+	for i := range part2 {
+		// Everything after the last comma is the first name, even if lowercase.
+		first.WriteString(parseDefault(i, part2))
 	}
 
 	return &ast.Author{
-- 
2.43.0


From ef25fe2668deb89a2e2df2ccddd9cf0b5163709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 25/43] fix: keep author names whose words contain accents or
 groups whole

---
 author.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/author.go b/author.go
index 3c9b701..ff1a773 100644
--- a/author.go
+++ b/author.go
@@ -83,7 +83,7 @@ const (
 
 func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
 	x := xs[idx]
-	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
+	if isSpace(x) && idx < len(xs)-1 {
 		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
 			// lowercase after space means we're out of the first name
 			return "", resolveNextPart
@@ -99,6 +99,28 @@ func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
 	return t.Value, resolveContinue
 }
 
+func isSpace(x ast.Expr) bool {
+	switch x.(type) {
+	case *ast.TextSpace, *ast.TextNBSP:
+		return true
+	default:
+		return false
+	}
+}
+
+// lastWord returns the index of the first expression of the last word in xs. A
+// word may consist of several expressions, like H{\"a}user.
+func lastWord(xs []ast.Expr) int {
+	i := len(xs) - 1
+	for i > 0 && isSpace(xs[i]) {
+		i--
+	}
+	for i > 0 && !isSpace(xs[i-1]) {
+		i--
+	}
+	return i
+}
+
 func hasUpperPrefix(s string) bool {
 	r, _ := utf8.DecodeRuneInString(s)
 	return unicode.IsUpper(r)
@@ -106,15 +128,14 @@ func hasUpperPrefix(s string) bool {
 
 func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
 	x := xs[idx]
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
+	if isSpace(x) || (idx > 0 && !isSpace(xs[idx-1])) {
+		return parseDefault(idx, xs), resolveContinue // not the start of a word
 	}
 
-	t := x.(*ast.Text)
-	if hasUpperPrefix(t.Value) {
+	if t, ok := x.(*ast.Text); !ok || hasUpperPrefix(t.Value) {
 		return "", resolveNextPart // Only lowercase goes in prefix
 	}
-	return t.Value, resolveContinue
+	return parseDefault(idx, xs), resolveContinue
 }
 
 func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
@@ -159,12 +180,13 @@ func parseDefault(idx int, xs []ast.Expr) string {
 // resolveAuthor0 resolves an author for an entry with no commas, like
 // "First von Last".
 func resolveAuthor0(xs []ast.Expr) *ast.Author {
+	lastIdx := lastWord(xs)
 	first := strings.Builder{}
 	first.Grow(16)
 	idx := 0
 	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
+		if idx == lastIdx {
+			// If we're on the last word, it belongs to the last name.
 			break
 		}
 		val, action := parseFirstName(idx, xs)
@@ -176,8 +198,8 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 
 	prefix := strings.Builder{}
 	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
+		if idx == lastIdx {
+			// If we're on the last word, it belongs to the last name.
 			break
 		}
 		val, action := parsePrefixName(idx, xs)
@@ -213,11 +235,12 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 //	2 commas: von last, suffix, first => Author{first, von, last, suffix}
 func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	part1 := xs[:commas[0]]
+	lastIdx := lastWord(part1)
 	idx1 := 0
 	prefix := strings.Builder{}
 	for ; idx1 < len(part1); idx1++ {
-		if idx1 == len(part1)-1 {
-			// If we're on the last part, it belongs to the last name.
+		if idx1 == lastIdx {
+			// If we're on the last word, it belongs to the last name.
 			break
 		}
 		val, action := parsePrefixName(idx1, part1)
-- 
2.43.0


From a91311f02e965489114f469265592fe55099e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 26/43] fix: do not panic on authors with macros or unknown
 accents

---
 author.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/author.go b/author.go
index ff1a773..cbec598 100644
--- a/author.go
+++ b/author.go
@@ -2,6 +2,7 @@ package bibtex
 
 import (
 	"fmt"
+	"io"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -15,6 +16,10 @@ const authorSep = "and"
 // ExtractAuthors extracts the authors from the parsed text of a bibtex field,
 // usually from the author or editor field of bibtex entry.
 func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
+	// Report anything that has no plain text before extracting names.
+	if err := render.NewTextRenderer().Render(io.Discard, txt); err != nil {
+		return nil, fmt.Errorf("render authors: %w", err)
+	}
 	// Pop tokens until we get the author separator then hand off the tokens
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
@@ -154,6 +159,12 @@ func parseDefault(idx int, xs []ast.Expr) string {
 			sb.WriteString(d)
 		}
 		return sb.String()
+	case *ast.TextMacro:
+		sb := strings.Builder{}
+		for i := range t.Values {
+			sb.WriteString(parseDefault(i, t.Values))
+		}
+		return sb.String()
 	case *ast.TextComma:
 		return ","
 	case *ast.TextEscaped:
-- 
2.43.0


From ba9d88aeaccb4fc2b5bce15d616fb43135df6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 27/43] fix: do not split authors at a word that only ends in
 and

---
 author.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index cbec598..de95f97 100644
--- a/author.go
+++ b/author.go
@@ -24,10 +24,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
 	aExprs := make([]ast.Expr, 0, 8)
-	for _, v := range txt.Values {
+	for i, v := range txt.Values {
 		switch t := v.(type) {
 		case *ast.Text:
-			if t.Value == authorSep {
+			if t.Value == authorSep && isWord(i, txt.Values) {
 				a := extractAuthor(aExprs)
 				if a.IsEmpty() {
 					return nil, fmt.Errorf("found an empty author")
@@ -113,6 +113,16 @@ func isSpace(x ast.Expr) bool {
 	}
 }
 
+// isWord returns true if the expression at idx is a whole word, not next to an
+// expression that's another part of the same word.
+func isWord(idx int, xs []ast.Expr) bool {
+	isEnd := func(x ast.Expr) bool {
+		_, ok := x.(*ast.TextComma)
+		return ok || isSpace(x)
+	}
+	return (idx == 0 || isEnd(xs[idx-1])) && (idx == len(xs)-1 || isEnd(xs[idx+1]))
+}
+
 // lastWord returns the index of the first expression of the last word in xs. A
 // word may consist of several expressions, like H{\"a}user.
 func lastWord(xs []ast.Expr) int {
-- 
2.43.0


From 9f3e1a083a1099c7276387bb8d007d0a05f0df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 28/43] fix: do not panic on a lone dollar sign

---
 asts/asts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 6787a2c..8ac97e9 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -66,7 +66,7 @@ func ParseStringExpr(depth int, s string) ast.Expr {
 	switch {
 	case strings.TrimSpace(s) == "":
 		return Space()
-	case strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
+	case len(s) >= 2 && strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
 		bs := []byte(s)
 		return Math(string(bs[1 : len(bs)-1]))
 	case s == "~":
-- 
2.43.0


From 1eff2bf15f1848b3434e1fc318b02536824d1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 29/43] fix: name a punctuation macro without its backslash

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 238497d..a037653 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -440,7 +440,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			// Special case common macros.
 			txt = p.parseMacroURL(p.lit)
 		default:
-			txt = &ast.TextMacro{Cmd: p.pos, Name: p.lit}
+			txt = &ast.TextMacro{Cmd: p.pos, Name: strings.TrimPrefix(p.lit, `\`)}
 		}
 	case token.StringBackslash:
 		txt = &ast.TextEscaped{ValuePos: p.pos, Value: p.lit[1:]}
-- 
2.43.0


From 36d18b4ed075b92b931de2a43afb8fd4520b14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 30/43] fix: recognise a url tag in any letter case

---
 parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a037653..169a991 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -767,16 +767,17 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			p.next()
 			var val ast.Expr
-			if key.Name == "url" && p.tok.IsStringLiteral() {
+			name := strings.ToLower(key.Name)
+			if name == "url" && p.tok.IsStringLiteral() {
 				val = p.parseURLStringLiteral()
 			} else {
 				val = p.parseExpr()
 			}
-			fixVal := fixUpFields(key.Name, val)
+			fixVal := fixUpFields(name, val)
 			tag := &ast.TagStmt{
 				Doc:     doc,
 				NamePos: key.Pos(),
-				Name:    strings.ToLower(key.Name),
+				Name:    name,
 				RawName: key.Name,
 				Value:   fixVal,
 			}
-- 
2.43.0


From 4b3bcdf10aba6fddccfb5500f176f34081d78747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 31/43] fix: keep tildes and commas of a url in braces

---
 parser/parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 169a991..89e570f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -717,18 +717,19 @@ func fixUpFields(tag string, val ast.Expr) ast.Expr {
 		if !ok || len(txt.Values) == 0 {
 			return val
 		}
-		child1, ok := txt.Values[0].(*ast.Text)
-		if !ok || !strings.HasPrefix(child1.Value, "http") {
-			return val
-		}
-		pos := child1.ValuePos
+		pos := txt.Values[0].Pos()
 		sb := strings.Builder{}
 		sb.Grow(32)
 		for _, child := range txt.Values {
-			if cTxt, ok := child.(*ast.Text); !ok {
+			switch c := child.(type) {
+			case *ast.Text:
+				sb.WriteString(c.Value)
+			case *ast.TextNBSP:
+				sb.WriteString("~")
+			case *ast.TextComma:
+				sb.WriteString(",")
+			default:
 				return val
-			} else {
-				sb.WriteString(cTxt.Value)
 			}
 		}
 		return &ast.ParsedText{
-- 
2.43.0


From a388b47a10c13d09d7182179617a558de82823c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 32/43] fix: accept any string that starts with a macro in a
 url tag

---
 parser/parser.go | 50 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 89e570f..573a8c6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -487,23 +487,7 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	switch tok := p.tok; tok {
 	case token.DoubleQuote:
 		p.next()
-		values := make([]ast.Expr, 0, 2)
-		for p.tok != token.DoubleQuote {
-			if p.tok == token.EOF {
-				p.errorExpected(p.pos, "double quote")
-				return &ast.BadExpr{From: pos, To: p.pos}
-			}
-			values = append(values, p.parseText(1))
-		}
-		p.next() // consume closing '"'
-		txt := &ast.ParsedText{
-			Opener: pos,
-			Depth:  0,
-			Delim:  ast.QuoteDelimiter,
-			Values: values,
-			Closer: p.pos,
-		}
-		return txt
+		return p.parseQuotedText(pos)
 
 	case token.StringLBrace:
 		return p.parseText(0)
@@ -518,6 +502,27 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	}
 }
 
+// parseQuotedText parses the rest of a string literal in double quotes after the
+// opening quote.
+func (p *parser) parseQuotedText(opener gotok.Pos) ast.Expr {
+	values := make([]ast.Expr, 0, 2)
+	for p.tok != token.DoubleQuote {
+		if p.tok == token.EOF {
+			p.errorExpected(p.pos, "double quote")
+			return &ast.BadExpr{From: opener, To: p.pos}
+		}
+		values = append(values, p.parseText(1))
+	}
+	p.next() // consume closing '"'
+	return &ast.ParsedText{
+		Opener: opener,
+		Depth:  0,
+		Delim:  ast.QuoteDelimiter,
+		Values: values,
+		Closer: p.pos,
+	}
+}
+
 func (p *parser) parseURLStringLiteral() ast.Expr {
 	sb := strings.Builder{}
 	sb.Grow(32)
@@ -527,16 +532,7 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		p.next()
 
 		if p.tok == token.StringMacro {
-			url := p.parseMacroURL(p.lit)
-			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
-			return &ast.ParsedText{
-				Opener: pos,
-				Depth:  0,
-				Delim:  ast.QuoteDelimiter,
-				Values: []ast.Expr{url},
-				Closer: p.pos,
-			}
+			return p.parseQuotedText(pos) // probably wrapped in \url{}
 		}
 
 		for p.tok != token.DoubleQuote {
-- 
2.43.0


From ef3754047bf3c5bfa798ae04b3395d5ef92214fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 33/43] fix: keep the spaces, braces, math and macros of a
 quoted url

---
 parser/parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 573a8c6..916cd8a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -541,7 +541,20 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 				return &ast.BadExpr{From: pos, To: p.pos}
 			}
 
-			sb.WriteString(p.lit)
+			switch p.tok {
+			case token.StringSpace:
+				sb.WriteByte(' ')
+			case token.StringLBrace:
+				sb.WriteByte('{')
+			case token.StringRBrace:
+				sb.WriteByte('}')
+			case token.StringMath:
+				sb.WriteString("$" + p.lit + "$")
+			case token.StringMacro:
+				sb.WriteString(`\` + strings.TrimPrefix(p.lit, `\`))
+			default:
+				sb.WriteString(p.lit)
+			}
 			p.next()
 		}
 		txt := &ast.Text{
-- 
2.43.0


From b8759d97e74a4e4427887cf5be89b91a208b1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 34/43] fix: accept a concatenation that starts with a quoted
 url

---
 parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 916cd8a..6876d22 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -596,9 +596,14 @@ func (p *parser) parseExpr() (x ast.Expr) {
 			To:   p.pos,
 		}
 		p.next() // make progress
-		return
+		return x
 	}
 
+	return p.parseConcat(x)
+}
+
+// parseConcat parses the rest of a concatenation after the operand x, if any.
+func (p *parser) parseConcat(x ast.Expr) ast.Expr {
 	if p.tok == token.Concat {
 		opPos := p.pos
 		p.next()
@@ -609,7 +614,7 @@ func (p *parser) parseExpr() (x ast.Expr) {
 			Y:     y,
 		}
 	}
-	return
+	return x
 }
 
 func (p *parser) parseIdent() *ast.Ident {
@@ -779,7 +784,7 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			var val ast.Expr
 			name := strings.ToLower(key.Name)
 			if name == "url" && p.tok.IsStringLiteral() {
-				val = p.parseURLStringLiteral()
+				val = p.parseConcat(p.parseURLStringLiteral())
 			} else {
 				val = p.parseExpr()
 			}
-- 
2.43.0


From e31c7bfcf131619c90ab0a9b6e221e70f8fe10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 35/43] fix: record where an accent and its letter start

---
 parser/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6876d22..6b3575f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -651,7 +651,7 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 }
 
 func (p *parser) parseStringAccent() ast.Expr {
-	lit := p.lit
+	pos, lit := p.pos, p.lit
 	p.next()
 	if len(lit) <= 2 {
 		p.error(p.pos, "invalid accent string")
@@ -662,14 +662,16 @@ func (p *parser) parseStringAccent() ast.Expr {
 		return &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 	value := lit[2:]
+	textPos := p.pos - 1 // the accent ends where the next token starts
 	if value[0] == '{' && value[len(value)-1] == '}' {
 		value = value[1 : len(value)-1]
+		textPos--
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: textPos,
 			Value:    value,
 		},
 	}
-- 
2.43.0


From 1491e833c7cd77b306ebde25e17f835a1c90bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 36/43] fix: record where a parsed string closes

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6b3575f..b3e26a5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -463,13 +463,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -513,13 +514,14 @@ func (p *parser) parseQuotedText(opener gotok.Pos) ast.Expr {
 		}
 		values = append(values, p.parseText(1))
 	}
+	closer := p.pos
 	p.next() // consume closing '"'
 	return &ast.ParsedText{
 		Opener: opener,
 		Depth:  0,
 		Delim:  ast.QuoteDelimiter,
 		Values: values,
-		Closer: p.pos,
+		Closer: closer,
 	}
 }
 
-- 
2.43.0


From 1855d4222bef8227372770c6fba2179038c22aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 37/43] fix: record where the address in a url macro starts

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b3e26a5..7c00aa6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -399,6 +399,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	urlCmd := &ast.TextMacro{Cmd: p.pos, Name: name}
 	p.next()
 	p.expect(token.StringLBrace)
+	urlPos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
@@ -406,7 +407,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: urlPos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
-- 
2.43.0


From 0468179a9a3c1e9fee71f04e84eda86724bce3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 38/43] fix: do not copy nested author text at every level

---
 author.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/author.go b/author.go
index de95f97..fa79d5c 100644
--- a/author.go
+++ b/author.go
@@ -164,16 +164,11 @@ func parseDefault(idx int, xs []ast.Expr) string {
 	case *ast.ParsedText:
 		sb := strings.Builder{}
 		sb.Grow(16)
-		for i := range t.Values {
-			d := parseDefault(i, t.Values)
-			sb.WriteString(d)
-		}
+		writeDefaults(&sb, t.Values)
 		return sb.String()
 	case *ast.TextMacro:
 		sb := strings.Builder{}
-		for i := range t.Values {
-			sb.WriteString(parseDefault(i, t.Values))
-		}
+		writeDefaults(&sb, t.Values)
 		return sb.String()
 	case *ast.TextComma:
 		return ","
@@ -198,6 +193,21 @@ func parseDefault(idx int, xs []ast.Expr) string {
 	}
 }
 
+// writeDefaults writes the text of all xs to sb. Unlike parseDefault, it doesn't
+// copy the text of nested braces at every level.
+func writeDefaults(sb *strings.Builder, xs []ast.Expr) {
+	for i, x := range xs {
+		switch t := x.(type) {
+		case *ast.ParsedText:
+			writeDefaults(sb, t.Values)
+		case *ast.TextMacro:
+			writeDefaults(sb, t.Values)
+		default:
+			sb.WriteString(parseDefault(i, xs))
+		}
+	}
+}
+
 // resolveAuthor0 resolves an author for an entry with no commas, like
 // "First von Last".
 func resolveAuthor0(xs []ast.Expr) *ast.Author {
-- 
2.43.0


From 69e7ea8b1bfd26da4e2d44993f7e0d97cff2198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 39/43] fix: leave the carriage return of a line end out of a
 comment

---
 scanner/scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b8c2e50..de38e2d 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -274,7 +274,8 @@ func (s *Scanner) scanTexComment() string {
 	for s.ch != '\n' && s.ch >= 0 {
 		s.next()
 	}
-	return string(s.src[offs:s.offset])
+	// Like the '\n', a '\r' before it isn't part of the comment.
+	return strings.TrimSuffix(string(s.src[offs:s.offset]), "\r")
 }
 
 func (s *Scanner) scanStringMath() (token.Token, string) {
-- 
2.43.0


From bd969852326b47e79a09ad5c158f2e6d86c6c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 40/43] fix: keep the dollar signs of a url

---
 parser/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7c00aa6..ae5db2b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -403,7 +403,11 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
-		sb.WriteString(p.lit)
+		if p.tok == token.StringMath {
+			sb.WriteString("$" + p.lit + "$")
+		} else {
+			sb.WriteString(p.lit)
+		}
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
@@ -747,6 +751,8 @@ func fixUpFields(tag string, val ast.Expr) ast.Expr {
 				sb.WriteString("~")
 			case *ast.TextComma:
 				sb.WriteString(",")
+			case *ast.TextMath:
+				sb.WriteString("$" + c.Value + "$")
 			default:
 				return val
 			}
-- 
2.43.0


From 15a68d3cc68ce6cae73d62012d3de6ce3d428ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:52 +0000
Subject: [PATCH 41/43] fix: leave the backslash of an escaped character out of
 a name

Names hold plain text like that of TextRenderer, accents are composed and braces
dropped, but AT\&T kept its backslash.
---
 author.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/author.go b/author.go
index fa79d5c..1b87aa5 100644
--- a/author.go
+++ b/author.go
@@ -173,7 +173,7 @@ func parseDefault(idx int, xs []ast.Expr) string {
 	case *ast.TextComma:
 		return ","
 	case *ast.TextEscaped:
-		return `\` + t.Value
+		return t.Value
 	case *ast.TextHyphen:
 		return "-"
 	case *ast.TextNBSP, *ast.TextSpace:
-- 
2.43.0


From bac323c3595e49cfed6c037fc5c1f4a0511c03b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:55 +0000
Subject: [PATCH 42/43] fix: BraceText nests string groups below its own depth

---
 asts/asts.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 8ac97e9..4340551 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -41,7 +41,11 @@ func BraceTextExpr(depth int, ss ...ast.Expr) *ast.ParsedText {
 func BraceText(depth int, ss ...interface{}) *ast.ParsedText {
 	xs := make([]ast.Expr, len(ss))
 	for i, s := range ss {
-		xs[i] = ParseAny(s)
+		if str, ok := s.(string); ok {
+			xs[i] = ParseStringExpr(depth, str)
+		} else {
+			xs[i] = ParseAny(s)
+		}
 	}
 	return &ast.ParsedText{
 		Depth:  depth,
-- 
2.43.0


From 1fa38006a51bfed54bae6bfa443b233d54d964bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:45 +0000
Subject: [PATCH 43/43] fix: WithBibKeys loses the key when applied to a second
 entry

---
 asts/asts.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asts/asts.go b/asts/asts.go
index 4340551..4afad47 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -264,12 +264,12 @@ func WithBibType(s string) func(decl *ast.BibDecl) {
 
 func WithBibKeys(ts ...string) func(decl *ast.BibDecl) {
 	return func(b *ast.BibDecl) {
-		if len(ts) > 0 {
-			b.Key = &ast.Ident{Name: ts[0]}
-			ts = ts[1:]
-		}
-		for _, k := range ts {
-			b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{Name: k})
+		for i, k := range ts {
+			if i == 0 {
+				b.Key = &ast.Ident{Name: k}
+			} else {
+				b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{Name: k})
+			}
 		}
 	}
 }
-- 
2.43.0

