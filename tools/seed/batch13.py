exec(open('/verif/tools/seed/batch3.py').read().split("bug('c01c'")[0])

bug('m10a','C10','a named file whose size is not known beforehand, such as a named pipe','only as many bytes are read as the size of the file says',
 [(pi,"	return os.ReadFile(filename)\n","""	f, err := os.Open(filename)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	info, err := f.Stat()
	if err != nil {
		return nil, err
	}
	if info.IsDir() {
		return os.ReadFile(filename) // for the error
	}
	text := make([]byte, info.Size())
	_, err = io.ReadFull(f, text)
	return text, err
""")],
 prog(r'''func main() {
	dir, _ := os.MkdirTemp("", "m10a")
	defer os.RemoveAll(dir)
	name := dir + "/x.bib"
	syscall.Mkfifo(name, 0o600)
	go os.WriteFile(name, []byte("@a{k}"), 0)
	f, err := parser.ParseFile(gotok.NewFileSet(), name, nil, 0)
	if err != nil || len(f.Entries) != 1 { os.RemoveAll(dir); die("%v", err) }
}''',P,GT,'syscall'))
bug('m02a','C02','a name of more than 255 characters','a long name is cut into two tokens',
 [(ss,"	for IsName(s.ch) {\n","	for IsName(s.ch) && s.offset-offs < 256 {\n")],
 prog(r'''func main() {
	_, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{"+strings.Repeat("k", 300)+"}", 0)
	if err != nil { die("%v", err) }
}''',P,GT,'strings'))
bug('m04a','C04','more than 256 errors, all requested','parsing is given up after very many errors even when all are requested, and what was parsed is lost',
 [(pp,"	if p.mode&AllErrors == 0 {\n","	if p.mode&AllErrors == 0 || len(p.errors) > 256 {\n")],
 prog(r'''func main() {
	f, err := parser.ParseFile(gotok.NewFileSet(), "", "@a{k, x = 1}\n"+strings.Repeat("@b{l, = }\n", 900), parser.AllErrors)
	if err == nil || f == nil || len(f.Entries) == 0 { die("%v", err) }
}''',P,GT,'strings'))
bug('m13a','C13','a file with more than 4096 entries','entries behind the 4096th are left out',
 [(bb,"	case *ast.File:\n		entries := make([]Entry, 0, len(n.Entries))\n		for _, decl := range n.Entries {\n","	case *ast.File:\n		entries := make([]Entry, 0, len(n.Entries))\n		for _, decl := range n.Entries[:min(len(n.Entries), 4096)] {\n")],
 prog(r'''func main() {
	f := &ast.File{}
	for i := 0; i < 5000; i++ { f.Entries = append(f.Entries, &ast.BibDecl{}) }
	es, err := bibtex.New().Resolve(f)
	if err != nil || len(es) != 5000 { die("%d %v", len(es), err) }
}''',A,M))
main(B)
