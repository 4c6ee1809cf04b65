#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Tokenizing and parsing are total: no panic, hang or memory blow-up",
  "For every byte sequence and every combination of parse modes, tokenizing it, parsing it as a document and parsing it as a single expression each return a result or report an error. None of them ever panics, fails to terminate, or uses time or memory out of proportion to the input.",
  ["inputs", "configurations"],
  "All byte strings up to 64 KiB (nesting up to 10,000 levels), including truncated, mutated and random ones, times all 32 parse-mode combinations and all scanner modes.",
  "The tests parse a few dozen short, nearly all well-formed strings; none ends inside a string literal, and no test looks at termination or memory.",
  ["scanner/scanner.go", "parser/parser.go", "parser/interface.go"],
  [("scanner always makes progress; EOF handling in string scanning", "scanner/scanner.go:Scan, scanInString, scanString, scanBraceString"),
   ("error recovery with bounded synchronisation", "parser/parser.go:advance, parseText, parseMacroURL, error"),
   ("bailout recovery", "parser/interface.go:ParseFile, ParseExpr")],
  ["parser.ParseFile", "parser.ParseExpr", "scanner.Scanner.Scan"])

p("C02", "A well-formed document yields exactly its declarations, keys and tags",
  "Parsing a well-formed document reports no error and yields exactly the document's declarations in source order: every entry with its lower-cased type, its cite key and any extra bare keys (and nothing else as keys), and every tag once, in order, with its lower-cased name, its raw spelling and its value; abbreviation and preamble declarations likewise. Values are numbers, abbreviation names, brace or quote strings, or concatenations of these whose operands keep their order and associate to the right. This holds for brace- and parenthesis-delimited declarations, with or without a cite key, with or without a trailing comma, and whether or not string contents are parsed.",
  ["inputs", "configurations"],
  "Every document of the supported grammar (entry types of letters, keys of the documented name characters including digit-first ones, strings balanced in the chosen mode) under both string modes.",
  "The tests check about 25 fixed one-entry documents, compare only the first key and never the extra keys, and never combine features (concatenation with parsed strings, digit-first keys, several entries).",
  ["parser/parser.go", "scanner/scanner.go", "ast/ast.go"],
  [("recursive descent over declarations", "parser/parser.go:parseDecl, parseBibDecl, parseTagStmt, parseExpr"),
   ("brace-versus-string heuristic and key/number lexing", "scanner/scanner.go:Scan")],
  ["parser.ParseFile result (ast.File)", "Biber.Parse"])

p("C03", "A parsed string literal accounts for every character of its source",
  "When string contents are parsed, the value tree of a well-formed literal reproduces the literal exactly: text, single commas, runs of white space, non-breaking spaces, math, escaped characters, accents (whichever of the equivalent spellings is used), macro names and nested brace groups appear in source order, each exactly once, with the right kind, content, delimiter and nesting depth. A double quote inside braces is content, and nothing from one literal leaks into the next.",
  ["inputs"],
  "All well-formed brace- and quote-delimited literals over the documented in-string constructs, with arbitrary nesting and arbitrary Unicode text, in entry tags, abbreviations, preambles and stand-alone expressions.",
  "Tests cover some 30 hand-written literals, mostly one construct each, and compare through a lossy printer; interactions (a quote inside braces after math, an accent before a closing brace, a macro before a comma) are unbounded.",
  ["scanner/scanner.go", "parser/parser.go"],
  [("in-string tokenizer with brace depth and end-quote state", "scanner/scanner.go:scanInString, scanStringEscape, scanStringMath, scanSpecialCharStringAccent"),
   ("text tree construction", "parser/parser.go:parseText, parseStringLiteral, parseStringAccent")],
  ["parser.ParseExpr", "parser.ParseFile tag values"])

p("C04", "Damaged input is always reported, at the damage, keeping what precedes it",
  "A document that is cut off inside a declaration, or whose declaration is damaged by a missing, extra or mismatched delimiter, a missing value or assignment, an entry tag name that does not start with a letter, an illegal character or a malformed in-string construct, is never accepted silently: parsing returns an error. The errors are sorted by position and lie inside the input at or after the start of the first damaged declaration, and when all errors are requested, or few enough occur, the partial result still contains every declaration before it unchanged. A stand-alone value that is damaged in such a way, or followed by anything but white space and comments, is an error as well.",
  ["inputs", "fault_sequences"],
  "Every well-formed document times every truncation point inside a declaration and every single damage of the listed kinds, in both string modes.",
  "Tests hold four malformed inputs and check only that some error exists; the number of truncation points and damage sites is unbounded.",
  ["parser/parser.go", "parser/interface.go", "scanner/scanner.go"],
  [("expectation checks and error list", "parser/parser.go:expect, expectOne, expectCloser, errorExpected, error"),
   ("lexical errors", "scanner/scanner.go:error, scanStringMath, scanStringEscape")],
  ["error and *ast.File returned by parser.ParseFile", "Biber.Parse", "parser.ParseExpr"])

p("C05", "The token stream tiles the source: nothing lost, duplicated or reordered",
  "For every input, successive tokens have strictly increasing positions, each token's text equals the source text at its position (up to the documented delimiters), and between tokens there is nothing but white space outside strings and nothing at all inside parsed strings. The stream ends in an end-of-file token that repeats for ever without further reports, and the error count always equals the number of reports made to the error handler, with at least one report whenever an illegal token is produced. Every token belongs to the class (literal, part of a string literal, operator, command) of the place it stands at.",
  ["inputs", "configurations"],
  "All byte strings (well-formed, mutated, random), in both string modes, with and without an error handler.",
  "Scanner tests use two dozen short literals; conservation is a statement about every byte of every input.",
  ["scanner/scanner.go", "token/token.go"],
  [("tokenizer", "scanner/scanner.go:Scan, scanInString and the scan* helpers")],
  ["sequence of scanner.Scanner.Scan results", "ErrorCount", "ErrorHandler calls"])

p("C06", "Every syntax node points at its own source text",
  "In the tree of a well-formed document, every declaration, key, tag, value, delimiter, concatenation operator and in-string element carries the position of its own first character (closing-delimiter and operator positions point at that delimiter or operator), also when several files share one file set. Positions translate to the correct file name, line and column, no node ends before it starts or outside its file, and keys, names, numbers, text parts and comments end right behind their last character.",
  ["inputs"],
  "All well-formed documents with arbitrary layout and Unicode content (LF, CRLF, multi-line strings), alone or as one of several files of a file set.",
  "Parser tests never look at a position; scanner tests check positions for one fixed source.",
  ["parser/parser.go", "scanner/scanner.go", "ast/ast.go"],
  [("position bookkeeping and line table", "scanner/scanner.go:next"),
   ("node construction", "parser/parser.go:parse*"), ("Pos and End", "ast/ast.go")],
  ["Pos and End and the position fields of every ast node", "go/token FileSet.Position"])

p("C07", "Diagnostic and representation modes never change what is parsed",
  "Tracing, comment, declaration-error and all-errors modes never change the resulting tree of a well-formed document, nor whether an input is accepted. Switching string parsing on or off changes only how string literals are represented: declarations, keys, tags, concatenations and the source extent of each literal stay the same. Without the all-errors mode the reported parser errors are a limited subset of those reported with it, which leaves out only further errors on a line and what follows the first ten.",
  ["configurations", "inputs"],
  "All 32 mode combinations times well-formed documents (balanced in both string modes) and damaged documents.",
  "Each test fixes one mode; no test compares two modes on the same input.",
  ["parser/parser.go", "parser/interface.go", "scanner/scanner.go"],
  [("mode handling", "parser/parser.go:init, next0, error, printTrace"), ("string mode", "scanner/scanner.go:Scan, scanString, scanBraceString")],
  ["parser.ParseFile under each mode", "bibtex.WithParserMode"])

p("C08", "Declarations parse independently of their neighbours and of layout",
  "The declarations of two well-formed documents written one after the other are those of the first followed by those of the second, so no state leaks from one declaration into another. Changing the white space or comments between tokens, line-ending style, a leading byte order mark, the letter case of entry types and tag names, the choice of declaration delimiters, or optional commas does not change any parsed key, name or value, and a value parses the same as a stand-alone expression as it does inside a declaration.",
  ["inputs"],
  "All pairs and sequences of well-formed documents, and all layout rewrites of the listed kinds applied between the tokens of a document.",
  "Every test document has a single entry in a single layout.",
  ["scanner/scanner.go", "parser/parser.go"],
  [("white-space and comment skipping", "scanner/scanner.go:skipWhitespace; parser/parser.go:next"), ("scanner string state reset", "scanner/scanner.go:scanInString"), ("case normalisation", "parser/parser.go:parseBibDecl, parseTagStmt")],
  ["parser.ParseFile", "parser.ParseExpr"])

p("C09", "Every comment is kept once, verbatim, grouped and attached by adjacency",
  "Every percent comment between the tokens of a document appears exactly once in the file's comment list, in source order, verbatim (with its percent sign, without the line end) and at its position, and percent signs inside strings never start a comment. Comments on consecutive lines with nothing in between form one group, a blank line or any other token separates groups, and a group of whole-line comments that ends on the line directly above a declaration or tag is that node's documentation while no other group is (a comment that shares a line with a token is a group of its own and documents nothing).",
  ["inputs"],
  "All well-formed documents with comments placed before, between and inside declarations, with any number of blank lines around them.",
  "No parser test contains a comment, apart from the header of one large file whose comments are not inspected.",
  ["parser/parser.go", "scanner/scanner.go"],
  [("comment grouping and lead comments", "parser/parser.go:next, consumeComment, consumeCommentGroup"), ("comment token", "scanner/scanner.go:scanTexComment")],
  ["ast.File.Comments", "Doc fields"])

p("C10", "The way source bytes are delivered does not matter, and read faults surface",
  "The same bytes give the same tree and the same error whether passed as a string, a byte slice, a buffer, a named file or any reader, however the reader splits them. A read that fails, a missing file or an unsupported source yields that failure as the error and no tree. The caller's bytes are never modified, and changing them afterwards never changes a tree already returned.",
  ["inputs", "fault_sequences"],
  "All source kinds, all chunkings of the byte stream (including empty reads and data together with end of file or an error) and a read error at every offset.",
  "Tests pass strings and one file; no test splits a stream, injects an error or looks at the caller's buffer.",
  ["parser/interface.go", "bibtex.go", "scanner/scanner.go"],
  [("source normalisation", "parser/interface.go:readSource"), ("reader entry point", "bibtex.go:Biber.Parse")],
  ["parser.ParseFile", "Biber.Parse", "the caller's buffer and reader"])

p("C11", "Concurrent use gives sequential results without data races",
  "Any number of goroutines may at the same time parse, resolve and render their own documents, through one shared configured instance and shared resolvers or separate ones, and read-only operations may share one tree and one file set: there is no data race and every goroutine gets exactly the result it would get alone. Reading operations (walking, rendering, describing, extracting authors) leave the tree untouched, and configuring one instance never affects another.",
  ["schedules", "histories"],
  "All interleavings of parse, resolve, render, walk, describe and author-extraction calls on shared instances, with distinct or read-only shared trees.",
  "No test starts a goroutine and the suite is not run under a race detector.",
  ["bibtex.go", "resolver.go", "author.go", "render/render.go", "parser/parser.go", "parser/interface.go", "scanner/scanner.go"],
  [("per-call parser state, immutable package tables", "parser/parser.go; render/accent.go"), ("fresh renderer table per instance", "render/render.go:Defaults; bibtex.go:New")],
  ["results and errors per goroutine", "race detector reports", "deep snapshots of shared trees"])

p("C12", "Results are repeatable and a reused scanner behaves like a new one",
  "Parsing, resolving and rendering the same input again gives the same trees, errors, entries and output, whatever was processed in between. Scanners used in turn do not influence each other. A scanner that is initialised again, at any point of any earlier scan, produces exactly the tokens, positions and errors of a brand-new scanner on the new source, and its error count restarts at zero.",
  ["histories"],
  "All sequences of earlier inputs and all points at which an earlier scan is abandoned (inside a string, inside braces, after an error).",
  "Tests use a new scanner and a new parser for every input and run each input once.",
  ["scanner/scanner.go", "parser/parser.go", "bibtex.go"],
  [("complete re-initialisation", "scanner/scanner.go:Init"), ("fresh parser per call", "parser/interface.go")],
  ["token sequences of reused scanners", "repeated results"],
  [dict(name="prev, endQuoteCh, braceDepth", meaning="scanner context carried between tokens", where="scanner/scanner.go:Scanner")])

p("C13", "Resolving returns every entry once, in order, after resolvers ran in order",
  "Resolving a tree runs each configured resolver exactly once on that tree in the order given, stops at the first failure and returns that failure (recognisable as the original error) with no entries. Otherwise it returns one entry per bibliography declaration and nothing else, in source order (for several files, file by file in a reproducible order), each with its type, its cite key (empty when it has none) and the value of every tag; it never panics on a tree that parsed without error, and a node that cannot hold entries is refused with an error. The entries belong to the caller: neither a later call nor a change by the caller affects any other result, and a resolver may itself resolve entries with the same instance. What is written under a standard entry type or field name, in any letter case, is found under the exported constant of that name.",
  ["inputs", "histories", "fault_sequences"],
  "All parsed documents and packages, all lists of resolvers (added by any number of options), and a failure of each resolver.",
  "Tests resolve eight single-entry documents with one resolver chain; none has a missing key, several entries, a failing resolver or a package.",
  ["bibtex.go", "resolver.go"],
  [("resolver loop and entry conversion", "bibtex.go:Resolve, resolveEntry, WithResolvers")],
  ["entries and error returned by Biber.Resolve", "calls received by instrumented resolvers"])

p("C14", "Author lists split into exactly the names and name parts that were written",
  "A list of names joined by the word 'and' yields one author per name, in order. A name written as 'First von Last', 'von Last, First' or 'von Last, Suffix, First' yields exactly those four parts - given names of any letter case after a comma, lower-case particles as the prefix, a braced group or a word containing accents kept whole - with accents composed and escaped characters without their backslash, and a lone 'others' is recognised as such. An author counts as empty only when it has none of the four parts. An empty name between separators is an error.",
  ["inputs"],
  "All author lists built from capitalised words, lower-case particles, words without letter case in given names after a comma, accented words, braced groups, hyphenated words and initials, in all three forms, with arbitrary white space.",
  "Seventeen hand-written names; none has a suffix, a lower-case given name after a comma, or an accent in the last word of a one-form name.",
  ["author.go", "resolver.go", "ast/ast.go"],
  [("list splitting", "author.go:ExtractAuthors"), ("name forms", "author.go:extractAuthor, resolveAuthor0, resolveAuthorN, parseFirstName, parsePrefixName, parseLastName")],
  ["bibtex.ExtractAuthors", "bibtex.NewAuthorResolver"])

p("C15", "Author extraction never crashes and never loses or invents name text",
  "For every string value that parses, extracting authors returns authors or an error and never panics. On success the number of authors is one more than the number of separator words, and the parts of each author together contain exactly the rendered text of that name in the source, apart from white space and the commas that separate its parts: nothing is dropped, duplicated or moved to another author. A value whose accents cannot be rendered is an error rather than altered text, and the author tags of an entry are replaced by the extracted list while all other tags are untouched.",
  ["inputs"],
  "All parsed string values: any mixture of text, spaces, commas, accents, escapes, macros, math and brace groups.",
  "The tests contain no macro, math, escape or unsupported accent in a name.",
  ["author.go", "resolver.go"],
  [("rendering of name parts", "author.go:parseDefault"), ("resolver", "resolver.go:AuthorResolver")],
  ["bibtex.ExtractAuthors", "AuthorResolver.Resolve"])

p("C16", "Plain-text rendering is the exact, compositional text of a value",
  "Rendering a parsed value as plain text gives the in-order concatenation of its parts: text and commas verbatim, escaped characters without the backslash, white space and non-breaking spaces as one space, math with its dollar signs, accented letters as the single composed Unicode character, brace groups without their braces, macros reduced to their arguments, the operands of a concatenation in order with at most a '#' between them. A value containing something that has no plain text (an unsupported accent, a damaged part) is an error that leaves the tag as it was. Applied to a document, rendering replaces every parsed string tag by that text, changes no other value, and applying it again changes nothing.",
  ["inputs"],
  "All parsed values of any nesting; all seven accents times all ASCII letters; all entry and abbreviation tags of a document.",
  "Tests render three tiny values and sample two accents.",
  ["render/render.go", "render/accent.go", "resolver.go"],
  [("text renderer", "render/render.go:TextRenderer.Render"), ("accent table", "render/accent.go:RenderAccent"), ("resolver", "resolver.go:RenderParsedTextResolver")],
  ["render.TextRenderer", "render.RenderAccent", "RenderParsedTextResolver"])

p("C17", "Tree walking visits each node once, properly nested, and obeys the visitor",
  "A walk enters every node before, and leaves it after, all its children: a package's files, a file's declarations, an entry's or abbreviation's tags, a tag's value, a preamble's text, a string's parts, a concatenation's two operands, a macro's arguments, a list's authors and an author's parts, in source order, exactly once for every place it stands at. The children are those the node has once the visitor has entered it, so a visitor may replace the contents of the node it enters, and it may walk other parts of the tree meanwhile. When the visitor asks to skip children exactly the descendants are skipped and the node is still left; when it asks to stop or returns an error no further call is made, and the walk returns precisely that error, or none for a plain stop.",
  ["inputs", "histories"],
  "All trees built from the node types (parsed or hand-made), times all visitor behaviours: stop, error or skip at any event.",
  "Three trees and two visitor behaviours are tested; none contains a tag, a concatenation, a macro or a declaration.",
  ["ast/walk.go", "ast/ast.go"],
  [("depth-first traversal", "ast/walk.go:Walk, walkHelper")],
  ["the sequence of visitor calls and the error returned by ast.Walk"])

p("C18", "Node rendering dispatches every visit once and re-creates string literals",
  "Rendering a tree calls the renderer configured for each visited node's kind exactly once on entering and once on leaving, in walk order, with the caller's writer; a replaced renderer changes only its own kind in its own instance, and one that stops, skips or fails has the effect that has for a walk; a renderer may itself render other nodes with the same instance. With the default renderers any parsed string literal (without macros) renders to a literal that parses to the same text: its delimiters, every text, comma, space, escape, accent and math part once and in order, and the output for a tree is that of its names and literals in walk order. Every node is of the kind of its type. Rendering never panics.",
  ["inputs", "configurations"],
  "All parsed trees and values, all node kinds, and all replacements of renderers by observing, skipping, stopping or failing ones.",
  "Node rendering has no test at all.",
  ["bibtex.go", "render/render.go", "ast/ast.go"],
  [("dispatch by kind", "bibtex.go:Render, WithRenderer, New"), ("default renderers", "render/render.go:Defaults, render*")],
  ["bytes written by Biber.Render", "calls received by instrumented renderers"])

p("C19", "A failing writer or renderer is always reported",
  "When the destination of a rendering fails at any write, the rendering returns an error that identifies that failure, writes nothing after the failed write, and everything written before it is a prefix of the fault-free output. A rendering that returns no error has written its complete output.",
  ["fault_sequences", "inputs"],
  "Plain-text and node rendering of all values and documents times a write fault at every write (plain failure or partial write).",
  "No test uses a writer that fails.",
  ["render/render.go", "bibtex.go"],
  [("error propagation from every write", "render/render.go:render*, TextRenderer.Render; bibtex.go:Render")],
  ["error returned and bytes accepted by an instrumented writer"])

p("C20", "Work and memory grow linearly with the input",
  "The number of steps executed and the bytes allocated to tokenize, parse, resolve, render or extract authors from an input grow at most in proportion to its size, for well-formed and malformed inputs alike, in every mode other than tracing. Doubling the number of entries, tags, authors, nested braces, concatenation operands, comments, lines or errors about doubles the cost.",
  ["inputs", "configurations"],
  "Parameterised families of inputs (one per repeated construct, well-formed and malformed) at growing sizes up to about 1 MiB, in both string modes.",
  "The one benchmark measures one file and asserts nothing; growth is a statement about families of inputs.",
  ["scanner/scanner.go", "parser/parser.go", "author.go", "render/render.go"],
  [("single-pass scanning, one-token look-ahead", "scanner/scanner.go; parser/parser.go:next"), ("bounded error recovery", "parser/parser.go:advance")],
  ["basic-block execution counts of the instrumented build", "bytes allocated"])

p("C21", "A package is the exact collection of its good files plus the first error",
  "Parsing a list of files yields, for every file that can be read and parsed, under its own name, exactly the tree that parsing it alone gives, and nothing for the others; the error returned is that of the first file in the list that failed, or none. A bad or missing file never affects another one, and the file's name is recorded in its tree and in every error about it.",
  ["inputs", "fault_sequences"],
  "All lists of files mixing well-formed, malformed, empty, missing and unreadable ones in any order.",
  "Package parsing has no test at all.",
  ["parser/interface.go", "parser/parser.go", "ast/ast.go"],
  [("package assembly", "parser/interface.go:ParsePackage"), ("file naming", "parser/parser.go:init, parseFile")],
  ["parser.ParsePackage", "ast.File.Name"])

p("C22", "Web addresses are kept verbatim",
  "A web address given as the value of a url tag, in any letter case of the tag name and with either string delimiter, or as the argument of a url or href macro in any tag, comes out of parsing and plain-text rendering character for character: characters that are special in TeX text such as the tilde, percent, hash, underscore and comma are neither replaced nor split off. In a quoted url tag that holds for backslash escapes behind the first character too.",
  ["inputs"],
  "All addresses over letters, digits and : / . ? # [ ] @ ! & ' ( ) * + , ; = - _ ~ %, in url tags (either delimiter, any case, plain or wrapped in a url macro) and in url or href macros in any tag.",
  "Five fixed addresses; none in a brace-delimited or upper-case url tag with special characters.",
  ["parser/parser.go", "render/render.go"],
  [("url handling", "parser/parser.go:parseMacroURL, parseURLStringLiteral, fixUpFields")],
  ["tag values from parser.ParseFile", "text after RenderParsedTextResolver"])

p("C23", "Simplifying escapes reaches every escape and changes nothing else",
  "The escape-simplifying step turns every escaped character at any nesting depth, in every tag of every entry and abbreviation and in preambles, into plain text holding that character; every other part of the tree, including order, depth, delimiters and positions of the remaining nodes, stays as it was. Plain text rendered before and after the step is the same, and a second application changes nothing.",
  ["inputs"],
  "All parsed documents and values with escapes at arbitrary places.",
  "Two values built by hand; no document is ever passed to this step alone.",
  ["resolver.go", "ast/walk.go"],
  [("in-place replacement during a walk", "resolver.go:SimplifyEscapedTextResolver")],
  ["the tree before and after bibtex.SimplifyEscapedTextResolver"])

p("C24", "Tree-building helpers agree with the parser and descriptions are faithful",
  "For every sequence of string parts, the tree assembled by the construction helpers at a given depth is the one the parser produces for the corresponding source at that depth, the options that set up an entry do the same for every entry they are applied to, and the helpers accept every string without panicking. The textual description of a value, parsed or made by the helpers, is the same for values that differ only in positions or white-space spelling, and differs for values that differ in kind, content, order, nesting, delimiter or operands.",
  ["inputs"],
  "Agreement: all sequences of parts in the helpers' notation (plain words, single spaces, $math$, commas, ~, \\macro, and brace groups of one or more words separated by single spaces). No panic: all strings. Descriptions: all pairs of values the parser can produce, and of values the helpers make from texts of any content and names and other contents without punctuation (macros with any number of arguments).",
  "The helpers are used only to write expectations for fixed values, and are never compared with the parser systematically.",
  ["asts/asts.go"],
  [("construction from strings", "asts/asts.go:ParseAny, ParseStringExpr, BraceText, QuotedText, WithBib*"), ("description", "asts/asts.go:ExprString")],
  ["asts.ExprString", "asts.BraceText, asts.QuotedText and friends"])

p("C25", "Scopes are first-wins name tables and objects know their declaration",
  "After any sequence of insertions and look-ups, a scope finds under each name the first object inserted under it and nothing for any other name; inserting a taken name changes nothing and returns the present object; and an outer scope is never consulted or changed. An object declared by an entry reports that entry's key position exactly when the names match.",
  ["histories"],
  "All histories of insertions and look-ups over a family of nested scopes.",
  "Scopes have no test at all.",
  ["ast/scope.go"],
  [("name table", "ast/scope.go:Scope.Insert, Scope.Lookup, NewScope"), ("object position", "ast/scope.go:Object.Pos")],
  ["results of Insert, Lookup and Pos"])

p("C26", "The tree returned next to errors is complete and safe to use",
  "Every file that parsing returns, with or without errors, is a complete tree: no declaration, tag, value, operand or part of a string in it is missing (only cite keys and doc comments may be), what could not be parsed is marked by a bad node and bad nodes occur only next to errors, every other string begins and ends at its delimiters in the source, no part is reached twice, every position lies inside the file, and declarations follow each other in source order. So walking, describing, rendering and resolving it never panics, and every entry in it is resolved.",
  ["inputs", "configurations"],
  "All inputs (well-formed, damaged, cut off, random), in both string modes and with any combination of the error flags.",
  "No test looks at the tree of a malformed input.",
  ["parser/parser.go", "parser/interface.go", "ast/ast.go", "ast/walk.go"],
  [("placeholders for what cannot be parsed", "parser/parser.go:parseText, parseExpr, parseDecl, parseStringAccent"), ("partial result", "parser/interface.go:ParseFile")],
  ["*ast.File returned by parser.ParseFile next to an error", "ast.Walk, asts.ExprString, Biber.Render and Biber.Resolve of it"])

p("C27", "From source to entries: the configured steps compose to exactly what was written",
  "Reading a well-formed document through one instance configured with the author, escape and plain-text steps and resolving it gives, for every entry in order, its type, its cite key and exactly its tags: the author tags hold the names as they were written, every other string tag holds its plain text, and numbers, abbreviation names and concatenations keep their value (with escapes simplified throughout if that step is configured). Where and how often the escape step stands among the steps makes no difference, nor does resolving the entries one by one or spread over the files of a package, and resolving the result again with the text steps changes nothing. If a value has no plain text, or an author tag holds no string to split (a number, an abbreviation name, a concatenation, or text that was already rendered), resolving fails and returns no entries.",
  ["inputs", "configurations"],
  "All well-formed documents with parsed strings, with the author tags holding any list of names, the author step before the plain-text step, and no repeated tag names in an entry.",
  "Tests resolve single hand-built values with one step at a time; the composition is never tested over documents.",
  ["bibtex.go", "resolver.go", "author.go", "render/render.go", "parser/parser.go"],
  [("instance and resolution", "bibtex.go:New, Parse, Resolve, resolveEntry"), ("steps", "resolver.go")],
  ["entries returned by Biber.Resolve of trees returned by Biber.Parse"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties")
