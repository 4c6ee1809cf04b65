exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

bug('k20a','C20','many different entry types (or, in the same way, abbreviations) in one document','every new type is looked for among all earlier ones',
 [(pp,'''	entryType := strings.ToLower(p.lit[1:]) // drop '@', e.g. "@BOOK" -> "book"
''','''	entryType := p.intern(strings.ToLower(p.lit[1:])) // drop '@', e.g. "@BOOK" -> "book"
'''),(pp,'''func (p *parser) parseBibDecl() ''','''// intern returns s, or an earlier string that is equal to it.
func (p *parser) intern(s string) string {
	for _, t := range p.interned {
		if s == t {
			return t
		}
	}
	p.interned = append(p.interned, s)
	return s
}

func (p *parser) parseBibDecl() '''),(pp,'''	unresolved []*ast.Ident // unresolved cite keys
''','''	unresolved []*ast.Ident // unresolved cite keys
	interned   []string     // entry types
''')],
 prog(r'''func cost(n int) time.Duration {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("@b" + strings.Map(func(c rune) rune { return c + 'a' - '0' }, fmt.Sprintf("%06d", i)) + "{k}\n")
	}
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		if _, err := parser.ParseFile(gotok.NewFileSet(), "", b.String(), 0); err != nil { die("%v", err) }
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(2000), cost(20000); b > 30*a { die("%v for 2000 types, %v for 20000", a, b) }
}''',P,GT,'strings','time'))
bug('k20b','C20','a source that is read from a reader in many small pieces','everything read so far is copied for every piece',
 [(pi,'''			return io.ReadAll(s)
''','''			return readAll(s)
'''),(pi,'''// A Mode value''','''// readAll reads s to its end into memory that is no larger than needed.
func readAll(s io.Reader) ([]byte, error) {
	var text []byte
	buf := make([]byte, 4096)
	for {
		n, err := s.Read(buf)
		if n > 0 {
			text = append(text[:len(text):len(text)], buf[:n]...)
		}
		if n > 0 && cap(text) > len(text) {
			text = append(make([]byte, 0, len(text)), text...)
		}
		if err == io.EOF {
			return text, nil
		}
		if err != nil {
			return nil, err
		}
	}
}

// A Mode value''')],
 prog(r'''func main() {
	alloc := func(n int) uint64 {
		src := strings.Repeat(" ", n)
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		parser.ParseFile(gotok.NewFileSet(), "", iotest.OneByteReader(strings.NewReader(src)), 0)
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	alloc(100)
	if a, b := alloc(2000), alloc(20000); b > 30*a+1000000 { die("%v for 2000, %v for 20000", a, b) }
}''',P,GT,'strings','runtime','testing/iotest'))
tbug('k20c','C20','a package of very many files','each file name is compared with all others',
 [(aa,'''		names = append(names, name)
	}
	sort.Strings(names)
	return names
''','''		i := len(names)
		names = append(names, name)
		for ; i > 0 && names[i-1] > name; i-- {
			names[i] = names[i-1]
		}
		names[i] = name
	}
	return names
'''),(aa,'	"sort"\n','')],
 prog(r'''func cost(n int) time.Duration {
	p := &ast.Package{Files: map[string]*ast.File{}}
	for i := 0; i < n; i++ { p.Files[fmt.Sprintf("f%06d", i)] = &ast.File{} }
	best := time.Hour
	for i := 0; i < 3; i++ {
		t := time.Now()
		ast.Walk(p, func(ast.Node, bool) (ast.WalkStatus, error) { return ast.WalkContinue, nil })
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(2000), cost(20000); b > 40*a { die("%v for 2000 files, %v for 20000", a, b) }
}''',A,'time'))
bug('k20d','C20','an entry with very many different tags','each tag is compared with all earlier ones when it is resolved',
 [(bb,'''	for _, tag := range decl.Tags {
		entry.Tags[tag.Name] = tag.Value
	}
''','''	for i, tag := range decl.Tags {
		if !repeated(decl.Tags[i+1:], tag.Name) {
			entry.Tags[tag.Name] = tag.Value
		}
	}
'''),(bb,'''func (b *Biber) resolveEntry(''','''// repeated reports whether one of tags has the name.
func repeated(tags []*ast.TagStmt, name Field) bool {
	for _, tag := range tags {
		if tag.Name == name {
			return true
		}
	}
	return false
}

func (b *Biber) resolveEntry(''')],
 prog(r'''func cost(n int) time.Duration {
	d := &ast.BibDecl{}
	for i := 0; i < n; i++ { d.Tags = append(d.Tags, &ast.TagStmt{Name: fmt.Sprint("t", i), Value: &ast.Number{Value: "1"}}) }
	best := time.Hour
	b := bibtex.New()
	for i := 0; i < 3; i++ {
		t := time.Now()
		b.Resolve(d)
		if d := time.Since(t); d < best { best = d }
	}
	return best
}
func main() {
	cost(100)
	if a, b := cost(2000), cost(20000); b > 40*a { die("%v for 2000 tags, %v for 20000", a, b) }
}''',A,M,'time'))
main(B)
