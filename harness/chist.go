package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Histories: a service is generated, its author edits the code and the
// definition, and it is generated again, many times over.

func init() {
	checks["C13"] = checkDef{
		run:     func(h *H) { h.runHistories() },
		rule:    "one regeneration in a history of edits of the definition and of the code, after which every file is compared with what its author and the definition make of it, and everything is compiled. Non-trivial: every distinct handler file",
		assumes: []string{stubs},
	}
	checks["C14"] = checkDef{
		run:     func(h *H) { h.runHistories() },
		rule:    "a regeneration repeated without any change, in a history of edits: every file in the module stays byte for byte as it was. Non-trivial: every distinct handler file",
		assumes: []string{stubs},
	}
}

// segment is a declaration with its comments, or what is between two.
type segment struct {
	decl bool
	name string // of a function, with its receiver: "(*x) Name"
	fn   bool
	text string
}

// split divides Go source into the text up to the package clause and segments.
func split(src string) (head string, segs []segment, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return "", nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	at := off(f.Name.End())
	head = src[:at]
	for _, d := range f.Decls {
		start, end := off(d.Pos()), off(d.End())
		var doc *ast.CommentGroup
		s := segment{decl: true}
		switch x := d.(type) {
		case *ast.FuncDecl:
			doc = x.Doc
			s.fn = true
			s.name = x.Name.Name
			if x.Recv != nil && len(x.Recv.List) > 0 {
				t := x.Recv.List[0].Type
				s.name = "(" + src[off(t.Pos()):off(t.End())] + ") " + s.name
			}
		case *ast.GenDecl:
			doc = x.Doc
			s.name = x.Tok.String()
		}
		if doc != nil {
			start = off(doc.Pos())
		}
		// a comment which ends the line belongs to the declaration
		if nl := strings.IndexByte(src[end:], '\n'); nl >= 0 && strings.HasPrefix(strings.TrimSpace(src[end:end+nl]), "//") {
			end += nl
		}
		if start < at {
			start = at
		}
		if start > at {
			segs = append(segs, segment{text: src[at:start]})
		}
		s.text = src[start:end]
		segs = append(segs, s)
		at = end
	}
	if at < len(src) {
		segs = append(segs, segment{text: src[at:]})
	}
	return head, segs, nil
}

func join(head string, segs []segment) string {
	var b strings.Builder
	b.WriteString(head)
	for _, s := range segs {
		b.WriteString(s.text)
	}
	return b.String()
}

// comments of a piece of text which has no declaration
func freeComments(s string) []string {
	var rv []string
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", "package x\n"+s, parser.ParseComments)
	if err != nil {
		return nil
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			rv = append(rv, c.Text)
		}
	}
	return rv
}

type histCase struct {
	h     *H
	w     *WS
	r     *rand.Rand
	f     *File
	conf  genConf
	n     int // which case
	seq   int // of edits
	log   []string
	extra map[string]string // the author's own files
	dead  bool              // no more is done
	alias string            // another name of the package of the messages
	apart bool              // an rpc is not what it was: the author's client does not fit any more
	ever  map[string]bool   // rpc names used
	// a symlink in the service, and what it leads to
	link, target string
}

func (c *histCase) svcDir() string {
	if c.conf.svcout != "" {
		return filepath.Join(c.conf.dir(c.f), c.conf.svcout)
	}
	return filepath.Join(c.conf.dir(c.f), c.f.lower()+"-service")
}
func (c *histCase) handler() string { return filepath.Join(c.svcDir(), "service/service.go") }
func (c *histCase) moved() string   { return filepath.Join("moved", c.f.lower()) }
func (c *histCase) recv() string    { return "*" + c.f.lower() + "Service" }

// token returns a name not used yet.
func (c *histCase) token() string {
	c.seq++
	return fmt.Sprintf("u%dx%d", c.n, c.seq)
}

func (c *histCase) fail(key string, d map[string]interface{}) {
	d["history"] = tailStrings(c.log, 12)
	d["definition"] = c.f.Text()
	d["args"] = c.conf.args(c.f)
	c.h.Violation(key, d)
	c.dead = true
}

func tailStrings(s []string, n int) []string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func (c *histCase) note(format string, a ...interface{}) {
	c.log = append(c.log, fmt.Sprintf(format, a...))
}

// --- edits of the definition ---

func (c *histCase) editProto() {
	r, f := c.r, c.f
	rpcs := f.Svc.Rpcs
	o := histOpts
	switch k := r.Intn(10); {
	case k < 3 && len(rpcs) < 7:
		p := f.genRpc(r, f.used, f.paths, o, f.msgNames, f.enumNames)
		i := r.Intn(len(f.Svc.Rpcs))
		f.Svc.Rpcs = append(f.Svc.Rpcs[:i:i], append([]*Rpc{p}, f.Svc.Rpcs[i:len(f.Svc.Rpcs)-1]...)...)
		c.note("rpc %s added", p.Name)
	case k < 5 && len(rpcs) > 1:
		i := r.Intn(len(rpcs))
		c.note("rpc %s removed", rpcs[i].Name)
		c.apart = true
		f.Svc.Rpcs = append(rpcs[:i:i], rpcs[i+1:]...)
	case k < 6:
		p := rpcs[r.Intn(len(rpcs))]
		old := p.Name
		p.Name = camel(r, f.used)
		c.note("rpc %s renamed %s", old, p.Name)
		c.apart = true
	case k < 7:
		p := rpcs[r.Intn(len(rpcs))]
		q := rpcs[r.Intn(len(rpcs))]
		p.Out = q.Out
		if len(p.HTTP) == 0 {
			p.In = q.In
		}
		c.note("rpc %s takes %s and returns %s", p.Name, p.In, p.Out)
		c.apart = true
	case k < 8:
		r.Shuffle(len(rpcs), func(i, j int) { rpcs[i], rpcs[j] = rpcs[j], rpcs[i] })
		c.note("rpcs reordered")
	case k < 9:
		p := rpcs[r.Intn(len(rpcs))]
		req := f.msg(p.In)
		if len(p.HTTP) > 0 && r.Intn(3) == 0 {
			p.HTTP = p.HTTP[:len(p.HTTP)-1]
			c.note("a binding of %s removed", p.Name)
			c.apart = true
		} else if len(p.HTTP) < 4 && req != nil {
			p.HTTP = append(p.HTTP, f.genBinding(r, p, req, f.paths, o))
			c.note("a binding of %s added", p.Name)
		}
	default:
		m := f.Msgs[r.Intn(len(f.Msgs))]
		fu := map[string]bool{}
		max := 0
		for _, fl := range m.Fields {
			fu[squash(fl.Name)] = true
			fu[squash(fl.Oneof)] = true
			if fl.Num > max {
				max = fl.Num
			}
		}
		fl := f.genField(r, m, fu, genOpts{Tricky: true, Optional: true}, nil, f.enumNames)
		fl.Num = max + 1
		c.note("field %s of %s added", fl.Name, m.Name)
	}
}

var histOpts = genOpts{Rpcs: 4, NoHTTP: true, Tricky: true, Oneofs: true, Maps: true, Nested: true, Optional: true, LowerRPC: true, Imported: true, DottedPkg: true}

func (f *File) msg(name string) *Msg {
	for _, m := range f.Msgs {
		if m.Name == name {
			return m
		}
	}
	return nil
}

// --- edits of the code ---

// bodies which fit any handler; T is a new name, and C the context's
var handlerBodies = []string{
	"{\n\treturn nil, nil // T\n}",
	"{\n\t// first T\n\tif err := C.Err(); err != nil {\n\t\treturn nil, err // second T\n\t}\n\n\t/* block T */\n\treturn nil, context.Canceled\n}",
	"{\n\tconst T = `func (s *fake) Fake() {\n\t}\n// no comment` + \"}\" + \"/* nor this */\"\n\tif len(T) > 3 {\n\t\treturn nil, nil\n\t}\n\treturn nil, context.DeadlineExceeded\n}",
	"{\n\tvar T []string\n\tfor i := range T {\n\t\t// loop T\n\t\tswitch T[i] {\n\t\tcase \"a\":\n\t\t\t// case T\n\t\t\tcontinue\n\t\tdefault:\n\t\t\treturn nil, nil\n\t\t}\n\t}\n\treturn nil, nil\n\t// the end T\n}",
	"{\n\tdefer func() {\n\t\t// deferred T\n\t\t_ = recover()\n\t}()\n\tT := func(a, b int) (n int, err error) {\n\t\treturn a + b, nil\n\t}\n\tif _, err := T(1,\n\t\t2, // two T\n\t); err != nil {\n\t\treturn nil, err\n\t}\n\treturn nil, nil\n}",
	"{\n\tselect {\n\tcase <-C.Done():\n\t\t// done T\n\t\treturn nil, C.Err()\n\tdefault:\n\t}\n\ttype T struct {\n\t\ta int // of T\n\t\tb map[string][]byte `json:\"T\"`\n\t}\n\tx := &T{\n\t\ta: 1, // one\n\n\t\t// two\n\t\tb: nil,\n\t}\n\t_ = x\n\treturn nil, nil\n}",
	"{ return nil, nil }",
	"{\n\n\n\t// only T\n\n\n\tpanic(\"T\")\n}",
	"{\n\t// {{.}} T\n\tconst T = \"{{ .Methods }}\" + `{{/* T */}}`\n\treturn nil, C.Err()\n}",
	"{\n\tgoto done\ndone:\n\t// label T\n\treturn nil, nil\n}",
}

// declarations an author may add; T is a new name, R the service's type
var keptDecls = []string{
	"func T() string { return \"T\" }",
	"// T helps.\n// It has a long comment.\nfunc T(n int) (m int, err error) {\n\t// inside T\n\treturn n * 2, nil\n}",
	"func (s R) T() int {\n\treturn len(\"T\") // T\n}",
	"type T struct {\n\ta int // field a\n\t// field b\n\tb string\n}",
	"type T interface {\n\tDo(x int) error // T does\n}",
	"// Const T\nconst (\n\tT = iota // first\n\tTb\n\n\t// last\n\tTc\n)",
	"var T = map[string]int{\n\t\"a\": 1, // a\n\t// b is next\n\t\"b\": 2,\n}",
	"func T[X any](x X) X { return x }",
	"var (\n\tT, Tb = 1, \"T\"\n)",
	"type xT int // trailing\n\nfunc (xT) lower() {}",
	"// ExportedT is for others.\ntype ExportedT struct{ X int }",
	"const ExportedT = \"T\"",
	"var ExportedT = func() int { return 1 }()",
	"type T = string",
	"//go:noinline\nfunc T() {}",
	"func init() {\n\t// init T\n}",
	"func _() {\n\tvar T int\n\t_ = T\n}",
	"// T holds {{.ServiceName}} and {{end}}.\nconst T = \"{{.Nothing}} %s %!d(MISSING) $1 ${name} {{range .Methods}}\"",
	"var T = `\n{{define \"T\"}}\n  keeps  its\tspaces   \n{{end}}\n// NAME-service {{`",
	"type T struct{ a, b int }\n\nfunc (*T) lower() {}\n\nfunc (T) upper() {}",
}

// declarations which a regeneration removes
var removedDecls = []string{
	"func GoneT() {}",
	"// GoneT is not to stay.\nfunc GoneT(n int) int {\n\t// inside GoneT\n\treturn n // end of GoneT\n}",
	"func (s R) GoneT(ctx context.Context) error { return nil }",
	"func (s S) GoneT() {\n\tif true {\n\t\t// deep in GoneT\n\t}\n\t/* last in GoneT */\n}",
	"type goneT int // kept\n\n// RPC on another type.\nfunc (goneT) RPC() {}",
	"// RPC is no method.\nfunc RPC(ctx context.Context, n int) error {\n\treturn nil // T\n}",
	"type (\n\tgoneT struct{ int } // kept too\n)\n\nfunc (g *goneT) RPC(ctx context.Context) {}",
	"// RPC has no pointer.\nfunc (s S) RPC(ctx context.Context, in *pb.None) error {\n\treturn nil // T\n}",
	// types whose names are near the service's
	"type goneTZSZ struct{} // kept as well\n\nfunc (g *goneTZSZ) RPC(ctx context.Context, in *pb.None) {} // T",
	"type ZSZgoneT struct{}\n\n// RPC is another one's.\nfunc (g *ZSZgoneT) RPC(ctx context.Context) {}",
	"type goneT[X any] struct{ x X }\n\nfunc (g *goneT[X]) RPC(ctx context.Context) {}",
}

var freeTexts = []string{
	"// a remark T", "/* a remark T */", "// TODO(T): everything\n// over two lines", "/*\n\tmany lines T\n\n\tfunc (s *x) Fake() {}\n*/",
	"// ---------- T ----------", "//T",
}

var (
	pbImport = regexp.MustCompile(`(?m)^\s*pb "([^"]+)"`)
	pbUse    = regexp.MustCompile(`pb\.(Unimplemented\w+)`)
)

var sigRE = regexp.MustCompile(`(?s)^((?:\s*//[^\n]*\n|\s*/\*.*?\*/\n?)*)func \((\w+) (\*?\w+)\) (\w+)\(([^)]*)\) \(([^)]*)\) `)

func (c *histCase) fillT(s string) string {
	t := c.token()
	s = regexp.MustCompile(`\bT\b|T(?:b|c)?\b`).ReplaceAllStringFunc(s, func(m string) string { return m })
	s = regexp.MustCompile(`([A-Za-z]*)\bT\b`).ReplaceAllString(s, "${1}"+t)
	s = strings.NewReplacer("Tb", t+"b", "Tc", t+"c", "ExportedT", "Exported"+t, "GoneT", "Gone"+t, "goneT", "gone"+t, "xT", "x"+t).Replace(s)
	s = regexp.MustCompile(`\bR\b`).ReplaceAllString(s, c.recv())
	s = regexp.MustCompile(`\bS\b`).ReplaceAllString(s, strings.TrimPrefix(c.recv(), "*"))
	s = strings.Replace(s, "ZSZ", strings.TrimPrefix(c.recv(), "*"), -1)
	s = strings.Replace(s, "pb.None", "pb."+goMsg(c.f.Svc.Rpcs[0].In), -1)
	// last, since an rpc may be named R or S
	if strings.Contains(s, "RPC") {
		// a function named NewService is the author's, whatever it is
		name := goCamel(pick(c.r, c.f.Svc.Rpcs).Name)
		if name == "NewService" {
			name = "Gone" + t
		}
		s = strings.Replace(s, "RPC", name, -1)
	}
	return s
}

// fillStubs replaces the bodies of fresh handlers, which depend on their
// types, by the author's.
func (c *histCase) editHandlers(src string) string {
	head, segs, err := split(src)
	if err != nil {
		panic(err)
	}
	r := c.r
	rpc := map[string]bool{}
	for _, p := range c.f.Svc.Rpcs {
		rpc[goCamel(p.Name)] = true
	}
	for i := range segs {
		s := &segs[i]
		if !s.fn || !strings.HasPrefix(s.name, "("+c.recv()+") ") || !rpc[strings.TrimPrefix(s.name, "("+c.recv()+") ")] {
			continue
		}
		stub := strings.Contains(s.text, "\tvar resp pb.")
		if !stub && r.Intn(4) > 0 {
			continue
		}
		m := sigRE.FindStringSubmatchIndex(s.text)
		if m == nil {
			continue
		}
		sig := s.text[m[0]:m[1]]
		body := c.fillT(pick(r, handlerBodies))
		ctx := "ctx"
		if p := s.text[m[10]:m[11]]; !strings.HasPrefix(p, "ctx ") {
			ctx = strings.Fields(p)[0]
		}
		if stub && r.Intn(3) == 0 {
			// another signature of the same type
			params := s.text[m[10]:m[11]]
			results := s.text[m[12]:m[13]]
			nctx, nin := pick(r, []string{"ctx", "c", "cx"}), pick(r, []string{"in", "req", "_"})
			nparams := strings.Replace(strings.Replace(params, "ctx ", nctx+" ", 1), "in *", nin+" *", 1)
			nresults := results
			if r.Intn(2) == 0 {
				nresults = strings.Replace(results, "*pb", "rv *pb", 1)
				nresults = strings.Replace(nresults, " error", " err error", 1)
			}
			recv := pick(r, []string{"s", "svc", "self"})
			sig = s.text[m[2]:m[3]] + "func (" + recv + " " + s.text[m[6]:m[7]] + ") " + s.text[m[8]:m[9]] + "(" + nparams + ") (" + nresults + ") "
			ctx = nctx
			if nresults != results {
				body = strings.Replace(body, "err := ", "err = ", 1)
				if strings.Contains(body, "_, err = ") || strings.Contains(body, "deferred") {
					body = "{\n\treturn\n}"
				}
			}
		}
		if c.alias != "" && r.Intn(2) == 0 {
			c.h.Count("handlers whose types have another alias", 1)
			if n := 1 + r.Intn(2); n == 2 || r.Intn(2) == 0 {
				sig = strings.Replace(sig, "*pb.", "*"+c.alias+".", n)
			} else if i := strings.LastIndex(sig, "*pb."); i >= 0 {
				sig = sig[:i] + "*" + c.alias + sig[i+3:]
			}
		}
		if r.Intn(3) == 0 && stub {
			sig = "// " + s.name[strings.LastIndex(s.name, " ")+1:] + " is documented by " + c.token() + ".\n" + sig
		}
		body = regexp.MustCompile(`\bC\b`).ReplaceAllString(body, ctx)
		s.text = sig + body
		c.note("%s gets a body", s.name)
	}
	return join(head, segs)
}

func (c *histCase) editCode(src string) string { return c.edit(src, c.r.Intn(14)) }

// editKeptCode adds nothing which is to be removed.
func (c *histCase) editKeptCode(src string) string {
	return c.edit(src, pick(c.r, []int{0, 0, 0, 6, 8, 9, 12}))
}

func (c *histCase) edit(src string, k int) string {
	r := c.r
	head, segs, err := split(src)
	if err != nil {
		panic(err)
	}
	// where something can be added: after an import, at the start or end of a gap
	var at []int
	last := 0
	for i, s := range segs {
		if s.name == "import" {
			last = i
		}
	}
	for i := last + 1; i <= len(segs); i++ {
		if i == len(segs) || !segs[i].decl {
			at = append(at, i)
		}
	}
	insert := func(text string) {
		i := at[r.Intn(len(at))]
		if r.Intn(4) == 0 {
			i = at[0]
		}
		seg := segment{text: "\n\n" + text + "\n"}
		segs = append(segs[:i:i], append([]segment{seg}, segs[i:]...)...)
	}
	switch {
	case k < 4:
		d := c.fillT(pick(r, keptDecls))
		insert(d)
		c.note("added: %s", d)
	case k < 6:
		d := c.fillT(pick(r, removedDecls))
		insert(d)
		c.note("added, to be removed: %s", d)
	case k < 8:
		d := c.fillT(pick(r, freeTexts))
		insert(d + "\n")
		c.note("remark: %s", d)
	case k < 9:
		t := c.token()
		pkg := pick(r, []string{"strings.ToUpper(\"x\")", "bytes.NewReader(nil)", "sort.Strings", "math.Pi", "unicode.IsUpper('x')"})
		name := strings.SplitN(pkg, ".", 2)[0]
		imp := fmt.Sprintf("\n\nimport %s %q // for %s\n", t, name, t)
		i := last + 1
		segs = append(segs[:i:i], append([]segment{{text: imp}}, segs[i:]...)...)
		segs = append(segs, segment{text: "\nvar _ = " + t + strings.TrimPrefix(pkg, name) + "\n"})
		c.note("import %s %s", t, name)
	case k < 10:
		// two declarations change places
		var d []int
		for i, s := range segs {
			if s.decl && i > last {
				d = append(d, i)
			}
		}
		if len(d) > 1 {
			i, j := d[r.Intn(len(d))], d[r.Intn(len(d))]
			segs[i], segs[j] = segs[j], segs[i]
			c.note("%s and %s change places", segs[i].name, segs[j].name)
		}
	case k < 11:
		t := c.token()
		for i := range segs {
			if segs[i].name == "NewService" {
				segs[i].text = regexp.MustCompile(`\{\s*return [^\n]*\n\}`).ReplaceAllString(segs[i].text,
					"{\n\tsvc := &"+strings.TrimPrefix(c.recv(), "*")+"{}\n\t// made for "+t+"\n\treturn svc\n}")
				c.note("NewService changed")
			}
			if segs[i].name == "type" && strings.Contains(segs[i].text, "pb.Unimplemented") && r.Intn(2) == 0 {
				segs[i].text = strings.TrimSuffix(strings.TrimSpace(segs[i].text), "}") + "\n\t" + t + " int // for " + t + "\n}"
				c.note("field %s added", t)
			}
		}
	case k >= 12:
		// the messages are imported once more
		m, u := pbImport.FindStringSubmatch(src), pbUse.FindStringSubmatch(src)
		if c.alias != "" || m == nil || u == nil {
			break
		}
		c.alias = c.token()
		i := last + 1
		segs = append(segs[:i:i], append([]segment{{text: "\n\nimport " + c.alias + " \"" + m[1] + "\"\n"}}, segs[i:]...)...)
		segs = append(segs, segment{text: "\nvar _ " + c.alias + "." + u[1] + "\n"})
		c.note("import %s of the messages", c.alias)
	default:
		if strings.HasPrefix(head, "package") {
			head = "// Copyright " + c.token() + "\n\n" + head
			c.note("header added")
		}
	}
	out := join(head, segs)
	// layout is not to matter
	if r.Intn(3) == 0 {
		out = strings.Replace(out, "\n\n", "\n\n\n", 2)
		out = strings.Replace(out, "\t", "    ", r.Intn(5))
	} else if f, err := format.Source([]byte(out)); err == nil && r.Intn(2) == 0 {
		out = string(f)
	}
	return out
}

// kept are the generated files which an author may edit.
func (c *histCase) keptFiles() []string {
	n := c.f.lower()
	var rv []string
	for _, p := range []string{"service/wrapper.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "cmd/" + n + "/main.go", "cmd/" + n + "-client/main.go"} {
		p = filepath.Join(c.svcDir(), p)
		if c.w.Exists(p) {
			rv = append(rv, p)
		}
	}
	return rv
}

func (c *histCase) editOther() {
	r := c.r
	switch k := r.Intn(3); {
	case k < 2:
		fs := c.keptFiles()
		if len(fs) == 0 {
			return
		}
		p := pick(r, fs)
		src := c.w.Read(p)
		if strings.HasSuffix(p, "-client/main.go") {
			return
		}
		t := c.token()
		add := pick(r, []string{
			"\n// end " + t + "\n", "\nfunc " + t + "() int { return 1 } // " + t + "\n", "\nvar Exported" + t + " = 1\n",
			"\nfunc Exported" + t + "() {\n  // inside\n}\n",
		})
		src += add
		if r.Intn(3) == 0 {
			src = "// Header " + t + "\n\n" + src
		}
		if r.Intn(3) == 0 {
			src = strings.Replace(src, "\t", "        ", 3)
		}
		c.w.Write(p, src)
		c.note("%s edited: %s", p, strings.TrimSpace(add))
	default:
		t := c.token()
		n := c.f.lower()
		if p := filepath.Join(c.svcDir(), pick(r, []string{"service", "service", "server", "cmd/" + n, ""}), ".#"+pick(r, []string{"service.go", "main.go", t})); r.Intn(5) == 0 && c.w.Exists(filepath.Dir(p)) {
			// an editor's lock: a symlink which leads nowhere
			if os.Symlink("author@host.4242:1700000000", filepath.Join(c.w.Dir, p)) == nil {
				c.w.chown(filepath.Join(c.w.Dir, p))
				c.note("%s locked by an editor", p)
			}
			return
		}
		dir := pick(r, []string{"service", "server", "cmd/" + n, "middleware", "", "service/sub", "cmd", "svc", "docs", ".hidden"})
		var name, text string
		if dir != "" && dir != "cmd" && dir != "docs" && dir != "svc" && r.Intn(2) == 0 {
			pkg := filepath.Base(dir)
			if pkg == n {
				pkg = "main"
			}
			if pkg == ".hidden" {
				pkg = "hidden"
			}
			name, text = t+".go", "package "+pkg+"\n\nfunc "+t+"()  {   }   // unformatted\nfunc Exported"+t+"() { }\n"
		} else {
			name = pick(r, []string{"README.md", "notes.txt", "Dockerfile", ".env", "data.json", t + ".proto", t + ".tmpl"})
			text = "content " + t + "\n\x00\xff"
		}
		p := filepath.Join(c.svcDir(), dir, name)
		c.w.Write(p, text)
		c.extra[p] = text
		c.note("%s written", p)
	}
}

// --- what a regeneration is to make of the handler file ---

// dropType removes the two types which a regeneration sets from a signature,
// and returns them.
func signature(text string) (string, string, string) {
	fset := token.NewFileSet()
	const pre = "package x\n"
	f, err := parser.ParseFile(fset, "", pre+text, 0)
	if err != nil || len(f.Decls) == 0 {
		return text, "", ""
	}
	fn, ok := f.Decls[0].(*ast.FuncDecl)
	if !ok || fn.Type.Params.NumFields() != 2 || fn.Type.Results.NumFields() != 2 {
		return text, "", ""
	}
	sel := func(e ast.Expr) *ast.Ident {
		if p, ok := e.(*ast.StarExpr); ok {
			e = p.X
		}
		if s, ok := e.(*ast.SelectorExpr); ok {
			return s.Sel
		}
		return nil
	}
	in, out := sel(fn.Type.Params.List[1].Type), sel(fn.Type.Results.List[0].Type)
	if in == nil || out == nil {
		return text, "", ""
	}
	cut := func(id *ast.Ident) (int, int) {
		return fset.Position(id.Pos()).Offset - len(pre), fset.Position(id.End()).Offset - len(pre)
	}
	a, b := cut(in)
	d, e := cut(out)
	return text[:a] + "IN" + text[b:d] + "OUT" + text[e:], in.Name, out.Name
}

func gofmt(s string) string {
	if b, err := format.Source([]byte(s)); err == nil {
		return string(b)
	}
	return s
}

// norm is a declaration as its tokens and comments, which no layout changes.
func norm(s string) string {
	var sc scanner.Scanner
	fset := token.NewFileSet()
	src := []byte(s)
	sc.Init(fset.AddFile("", -1, len(src)), src, nil, scanner.ScanComments)
	var b strings.Builder
	for {
		_, tok, lit := sc.Scan()
		switch {
		case tok == token.EOF:
			return b.String()
		case tok == token.SEMICOLON && lit == "\n":
			continue
		case tok == token.COMMENT:
			lit = normComment(lit) + "\n"
		case lit == "":
			lit = tok.String()
		}
		b.WriteString(lit + " ")
	}
}

func (c *histCase) checkHandlers(before, after string) bool {
	d := map[string]interface{}{"before": before, "after": after}
	bhead, bsegs, err := split(before)
	if err != nil {
		panic(fmt.Sprint("the edited file does not parse: ", err, "\n", before))
	}
	ahead, asegs, err := split(after)
	if err != nil {
		d["error"] = err.Error()
		c.fail("the handler file does not parse", d)
		return false
	}
	rpcs := map[string]*Rpc{}
	for _, p := range c.f.Svc.Rpcs {
		rpcs["("+c.recv()+") "+goCamel(p.Name)] = p
	}
	var got, want []string
	gotIn := map[string][2]string{}
	for _, s := range asegs {
		if !s.decl {
			continue
		}
		t := s.text
		if s.fn && rpcs[s.name] != nil {
			var in, out string
			t, in, out = signature(t)
			gotIn[s.name] = [2]string{in, out}
		}
		got = append(got, norm(t))
	}
	have := map[string]bool{}
	var gone, free []string
	dropped := 0
	for _, s := range bsegs {
		if !s.decl {
			free = append(free, freeComments(s.text)...)
			continue
		}
		t := s.text
		if s.fn {
			base := s.name[strings.LastIndex(s.name, " ")+1:]
			if (base != "NewService" || s.name == "("+c.recv()+") NewService") && ast.IsExported(base) {
				if rpcs[s.name] == nil || have[s.name] {
					gone = append(gone, t)
					dropped++
					continue
				}
				have[s.name] = true
				t, _, _ = signature(t)
			}
		}
		want = append(want, norm(t))
	}
	added := 0
	for _, p := range c.f.Svc.Rpcs {
		if name := "(" + c.recv() + ") " + goCamel(p.Name); !have[name] {
			added++
			want = append(want, norm("func (s "+c.recv()+") "+goCamel(p.Name)+"(ctx context.Context, in *pb.IN) (*pb.OUT, error) {\n\tvar resp pb."+goMsg(p.Out)+"\n\treturn &resp, nil\n}"))
		}
	}
	c.h.Count("declarations compared", len(want))
	c.h.Count("exported functions removed", dropped)
	c.h.Count("handlers added", added)
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(none)", "(none)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			d["got"], d["want"] = g, w
			c.fail("a declaration is not kept, removed or added as it should be", d)
			return false
		}
	}
	for name, p := range rpcs {
		io := gotIn[name]
		if io[0] != goMsg(p.In) || io[1] != goMsg(p.Out) {
			d["handler"], d["types"], d["wantTypes"] = name, io, []string{goMsg(p.In), goMsg(p.Out)}
			c.fail("a handler has other types than its rpc", d)
			return false
		}
	}
	if norm2(bhead) != norm2(ahead) {
		c.fail("the head of the handler file changes", d)
		return false
	}
	// remarks between declarations stay; no other ones come, save of what was removed
	var afree []string
	for _, s := range asegs {
		if !s.decl {
			afree = append(afree, freeComments(s.text)...)
		}
	}
	sort.Strings(free)
	sort.Strings(afree)
	left := map[string]int{}
	for _, x := range afree {
		left[normComment(x)]++
	}
	for _, x := range free {
		left[normComment(x)]--
		if left[normComment(x)] < 0 {
			d["comment"] = x
			c.fail("a remark of the author is lost", d)
			return false
		}
	}
	removed := strings.Join(gone, "\n")
	for x, n := range left {
		if n > 0 && !strings.Contains(normComment(removed), x) {
			d["comment"] = x
			c.fail("a remark appears which the author did not write", d)
			return false
		}
		if n > 0 {
			c.h.Count("comments of removed functions left", n)
		}
	}
	return true
}

// otherSignatures gives handlers signatures which no rpc has: what is the
// author's to repair stays as the author wrote it.
func (h *H) otherSignatures(n int) {
	w := h.newWS()
	defer w.Close()
	r := h.Rand(fmt.Sprint("signatures", n))
	f := genFile(r, fmt.Sprintf("g%d", n), histOpts)
	c := &histCase{h: h, w: w, r: r, f: f, extra: map[string]string{}, ever: map[string]bool{}, conf: genConf{transport: "all"}}
	w.Write(f.Path, f.Text())
	run := func() result { return w.Baron(c.conf.dir(f), c.conf.args(f)...) }
	if res := run(); res.Code != 0 {
		h.Violation("a valid definition is refused", map[string]interface{}{"proto": f.Text(), "output": tail(res.Out+res.Err, 1500)})
		return
	}
	for k, sig := range []string{
		"(a, b int)", "()", "(ctx context.Context)", "(a, b, c int) error", "(ctx context.Context, in int) (n, m int)", "(context.Context, *pb.None)",
		"(a, b *pb.None) (c, d *pb.None)", "(...string) (int, error)", "(ctx context.Context, in ...*pb.None) error", "(ctx context.Context, in func(pb.None)) ([]*pb.None, error)",
		"() (a, b error)", "(_ context.Context, _ struct{ X pb.None }) (map[string]pb.None, error)",
	} {
		head, segs, err := split(w.Read(c.handler()))
		if err != nil {
			h.Violation("the handler file does not parse", w.Read(c.handler()))
			return
		}
		var at []int
		for i, s := range segs {
			if s.fn && strings.HasPrefix(s.name, "("+c.recv()+") ") && ast.IsExported(s.name[strings.LastIndex(s.name, " ")+1:]) {
				at = append(at, i)
			}
		}
		i := pick(r, at)
		s := &segs[i]
		s.text = fmt.Sprintf("// number %d\nfunc (s %s) %s%s {\n\t// the body %d\n\tpanic(%d)\n}", k, c.recv(), s.name[strings.LastIndex(s.name, " ")+1:], sig, k, k)
		before := join(head, segs)
		w.Write(c.handler(), before)
		res := run()
		after := w.Read(c.handler())
		h.Eval(fmt.Sprint(n, sig), true)
		h.Count("handlers of other signatures", 1)
		d := map[string]interface{}{"proto": f.Text(), "before": before, "after": after, "output": tail(res.Out+res.Err, 1500)}
		if res.Code != 0 {
			h.Violation("regeneration fails for a handler's signature", d)
			return
		}
		// the types of an rpc may be set where its signature has them
		sig1 := regexp.MustCompile(`pb\.\w+`)
		if a, b := norm(sig1.ReplaceAllString(before, "pb.T")), norm(sig1.ReplaceAllString(after, "pb.T")); a != b {
			d["difference"] = firstDiff(a, b)
			h.Violation("a handler of another signature is not kept", d)
			return
		}
	}
}

func norm2(s string) string { return strings.TrimSpace(gofmt(s)) }

func normComment(s string) string { return strings.Join(strings.Fields(s), " ") }

// --- running histories ---

func (h *H) runHistories() {
	cases := h.N(24, 72)
	rounds := h.N(5, 13)
	w, fresh := h.newWS(), h.newWS()
	defer w.Close()
	defer fresh.Close()
	var cs []*histCase
	r := h.Rand("histories")
	for i := 0; i < cases; i++ {
		f := genFile(r, fmt.Sprintf("c%d", i), histOpts)
		f.number(i)
		c := &histCase{h: h, w: w, r: rand.New(rand.NewSource(r.Int63())), f: f, n: i, extra: map[string]string{}, ever: map[string]bool{},
			conf: genConf{transport: transports[i%3], client: r.Intn(4) == 0, sub: r.Intn(4) == 0}}
		cs = append(cs, c)
	}
	for round := 0; round < rounds; round++ {
		parallel(len(cs), func(i int) {
			c := cs[i]
			if c.dead {
				return
			}
			if round > 0 {
				n := 1 + c.r.Intn(4)
				for j := 0; j < n; j++ {
					c.editProto()
				}
				src := c.w.Read(c.handler())
				src = c.editHandlers(src)
				for j := 2 + c.r.Intn(6); j > 0; j-- {
					src = c.editCode(src)
				}
				c.w.Write(c.handler(), src)
				for j := 0; j < c.r.Intn(3); j++ {
					c.editOther()
				}
			}
			c.step(fresh, round)
			if round == 0 && !c.dead {
				c.moveAway()
			}
		})
		if h.Prop == "C13" {
			h.compileHistories(w, cs)
		}
	}
	if h.Prop == "C13" {
		parallel(h.N(10, 60), func(i int) { h.otherSignatures(i) })
	}
	h.Count("regenerations", cases*(rounds-1))
}

func (c *histCase) step(fresh *WS, round int) {
	h, w, f := c.h, c.w, c.f
	text := f.Text()
	w.Write(f.Path, text)
	before := w.Read(c.handler())
	if n := f.lower(); c.apart {
		os.Remove(filepath.Join(w.Dir, c.svcDir(), "cmd", n+"-client/main.go"))
		c.apart = false
	}
	kept := map[string]string{}
	for _, p := range c.keptFiles() {
		kept[p] = w.Read(p)
	}
	c.note("-- baron --")
	res := w.Baron(c.conf.dir(f), c.conf.args(f)...)
	after := w.Read(c.handler())
	h.Eval(before+"\n=>\n"+after, round > 0)
	if res.Code != 0 {
		c.fail("regeneration fails", map[string]interface{}{"output": tail(res.Out+res.Err, 1500), "handlers": before})
		return
	}
	if h.Prop == "C14" {
		c.again(round)
		if !c.dead {
			c.editKept()
			h.Eval(c.w.Read(c.handler()), true)
			c.again(round)
		}
		return
	}
	if round > 0 && !c.checkHandlers(before, after) {
		return
	}
	if t, err := filepath.EvalSymlinks(filepath.Join(w.Dir, c.link)); c.link != "" && (err != nil || t != c.target) {
		c.fail("a symlink of the author's is replaced", map[string]interface{}{"path": c.link})
		return
	}
	for p, text := range kept {
		if got := w.Read(p); got != gofmt(text) {
			c.fail("a file of the author's is changed", map[string]interface{}{"path": p, "before": text, "after": got})
			return
		}
		h.Count("files kept", 1)
	}
	for p, text := range c.extra {
		if got := w.Read(p); got != text {
			c.fail("a file of the author's is changed", map[string]interface{}{"path": p, "before": text, "after": got})
			return
		}
		h.Count("files kept", 1)
	}
	// what is generated anew is as if generated for the first time
	fresh.Write(f.Path, text)
	fdir := filepath.Join(fresh.Dir, c.svcDir())
	os.RemoveAll(fdir)
	if res := fresh.Baron(c.conf.dir(f), c.conf.args(f)...); res.Code != 0 {
		c.fail("a valid definition is refused", map[string]interface{}{"output": tail(res.Out+res.Err, 1500)})
		return
	}
	base := strings.TrimSuffix(f.Path, ".proto")
	for _, p := range []string{base + ".pb.go", base + "_grpc.pb.go", base + ".pb.baron.go", filepath.Join(c.svcDir(), "server/server.go")} {
		a, b := w.Read(p), fresh.Read(p)
		if a != b || a == "" {
			c.fail("a regenerated file is not as a fresh one", map[string]interface{}{"path": p, "difference": firstDiff(a, b)})
			return
		}
		h.Count("files compared with fresh ones", 1)
	}
	if round == 0 {
		a, b := w.Read(c.handler()), fresh.Read(c.handler())
		if a != b || a == "" {
			c.fail("a regenerated file is not as a fresh one", map[string]interface{}{"path": c.handler(), "difference": firstDiff(a, b)})
		}
	}
}

// moveAway puts part of a service in another place of the module, and a
// symlink where it was.
func (c *histCase) moveAway() {
	if c.r.Intn(4) > 0 {
		return
	}
	c.link = filepath.Join(c.svcDir(), pick(c.r, []string{"", "service", "service", "server", "cmd", "cmd/" + c.f.lower(), "service/service.go", "service/wrapper.go"}))
	to := filepath.Join(c.moved(), filepath.Base(c.link))
	from := filepath.Join(c.w.Dir, c.link)
	c.target = filepath.Join(c.w.Dir, to)
	c.w.Mkdir(filepath.Dir(to))
	must(os.Rename(from, c.target))
	must(os.Symlink(c.target, from))
	c.w.chown(from)
	c.note("%s is moved, and linked to %s", c.link, to)
	c.h.Count("histories with symlinks", 1)
}

// again repeats the run.
func (c *histCase) again(round int) {
	svc := filepath.Join(c.w.Dir, c.svcDir())
	pb := filepath.Join(c.w.Dir, filepath.Dir(c.f.Path))
	moved := filepath.Join(c.w.Dir, c.moved())
	a, b, m := snapshot(svc), snapshot(pb), snapshot(moved)
	for i := 0; i < 2; i++ {
		res := c.w.Baron(c.conf.dir(c.f), c.conf.args(c.f)...)
		if res.Code != 0 {
			c.fail("regeneration fails", map[string]interface{}{"output": tail(res.Out+res.Err, 1500), "handlers": c.w.Read(c.handler())})
			return
		}
		c.h.Count("repetitions", 1)
		if c.unchanged(res); c.dead {
			return
		}
		for _, x := range []struct {
			dir  string
			snap map[string]string
		}{{svc, a}, {pb, b}, {moved, m}} {
			now := snapshot(x.dir)
			c.h.Count("files compared", len(now))
			if diff := diffSnap(x.snap, now); len(diff) > 0 {
				d := map[string]interface{}{"files": diff}
				if p := diff[0]; p[0] == '~' {
					d["difference"] = firstDiff(x.snap[p[1:]], now[p[1:]])
					d["before"], d["after"] = x.snap[p[1:]], now[p[1:]]
				}
				c.fail("repeating a run changes files", d)
				return
			}
		}
	}
}

// editKept adds what a regeneration has no reason to change, gofmt-ed.
func (c *histCase) editKept() {
	c.note("-- edited without a change of the definition --")
	src := c.editHandlers(c.w.Read(c.handler()))
	for j := 0; j < 1+c.r.Intn(3); j++ {
		src = c.editKeptCode(src)
	}
	c.w.Write(c.handler(), gofmt(src))
	for j := 0; j < c.r.Intn(3); j++ {
		c.editOther()
	}
	for _, p := range c.keptFiles() {
		c.w.Write(p, gofmt(c.w.Read(p)))
	}
}

// unchanged compares what a repeated run says of the files an author may edit.
func (c *histCase) unchanged(res result) {
	out := res.Out + res.Err
	svc := filepath.Join(c.w.Dir, c.svcDir())
	for _, p := range append(c.keptFiles(), c.handler()) {
		if strings.HasSuffix(p, "-client/main.go") && !c.conf.client {
			continue
		}
		c.h.Count("files told to be as they were", 1)
		if p = filepath.Join(c.w.Dir, p); !strings.Contains(out, "=> "+p) || strings.Contains(out, ">> "+p) || strings.Contains(out, "-> "+p) {
			c.fail("a repeated run does not say that a file is as it was", map[string]interface{}{"path": p, "output": tail(out, 3000)})
			return
		}
	}
	if strings.Contains(out, "-> "+svc) || strings.Contains(out, ">> "+svc) {
		c.fail("a repeated run says that it changes files", map[string]interface{}{"output": tail(out, 3000)})
	}
}

// compileHistories compiles the module and attributes errors to histories.
func (h *H) compileHistories(w *WS, cs []*histCase) {
	for {
		res := w.Go("build", "./...")
		if res.Code == 0 {
			h.Count("compilations", 1)
			return
		}
		found := false
		for _, c := range cs {
			if c.dead {
				continue
			}
			var lines []string
			for _, line := range strings.Split(res.Err, "\n") {
				if strings.HasPrefix(line, c.svcDir()+"/") || strings.HasPrefix(line, c.moved()+"/") || strings.HasPrefix(line, filepath.Dir(c.f.Path)+"/") {
					lines = append(lines, line)
				}
			}
			if len(lines) > 0 {
				found = true
				c.fail("after a regeneration the code does not compile", map[string]interface{}{"errors": lines, "handlers": w.Read(c.handler())})
				os.RemoveAll(filepath.Join(w.Dir, c.svcDir()))
				os.RemoveAll(filepath.Join(w.Dir, c.moved()))
				os.RemoveAll(filepath.Join(w.Dir, filepath.Dir(c.f.Path)))
			}
		}
		if !found {
			h.Violation("after a regeneration the code does not compile", clip(res.Err, 3000))
			return
		}
	}
}
