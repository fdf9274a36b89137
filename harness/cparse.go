package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/types/descriptorpb"
)

// What svcparse returns, as far as the harness judges it.
type pField struct{ Name, Kind, Value string }

type pBinding struct {
	Fields            []pField
	CustomHTTPPattern []pField
}

type pMethod struct {
	Name                      string
	RequestType, ResponseType string
	HTTPBindings              []pBinding
}

type pService struct {
	Name    string
	Methods []pMethod
}

type pReply struct {
	Err string
	Svc *pService
}

// norm is the meaning of a service: what the parser and protoc must agree on.
// rpcs without an annotation carry none; skip names those which stream.
func (s *pService) norm(skip map[string]bool) string {
	if s == nil {
		return "none"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "service %s\n", s.Name)
	for _, m := range s.Methods {
		if skip[m.Name] || len(m.HTTPBindings) == 0 {
			continue
		}
		fmt.Fprintf(&b, "rpc %s(%s) %s\n", m.Name, shortName(m.RequestType), shortName(m.ResponseType))
		var bs []string
		for _, h := range m.HTTPBindings {
			var x Binding
			extra := ""
			if h.CustomHTTPPattern != nil {
				x.Custom = true
				for _, f := range h.CustomHTTPPattern {
					switch f.Kind {
					case "kind":
						x.Verb = f.Value
					case "path":
						x.Path = f.Value
					default:
						extra += js(f)
					}
				}
			}
			nverb := 0
			for _, f := range h.Fields {
				switch f.Kind {
				case "get", "put", "post", "delete", "patch":
					x.Verb, x.Path = f.Kind, f.Value
					nverb++
				case "body":
					x.Body = f.Value
				case "selector", "response_body":
					// say nothing about requests
				default:
					extra += js(f)
				}
			}
			if nverb > 1 {
				extra += " verbs"
			}
			bs = append(bs, fmt.Sprintf("  %s %q body=%q custom=%v%s\n", x.Verb, x.Path, x.Body, x.Custom, extra))
		}
		sort.Strings(bs)
		b.WriteString(strings.Join(bs, ""))
	}
	return b.String()
}

// normDesc is the same meaning as protoc sees it.
func normDesc(fd *descriptorpb.FileDescriptorProto) (string, map[string]bool) {
	skip := map[string]bool{}
	if len(fd.Service) == 0 {
		return "none", skip
	}
	sd := fd.Service[0]
	var b strings.Builder
	fmt.Fprintf(&b, "service %s\n", sd.GetName())
	for _, m := range sd.Method {
		if m.GetClientStreaming() || m.GetServerStreaming() {
			skip[m.GetName()] = true
			continue
		}
		if len(httpRules(m)) == 0 {
			continue
		}
		fmt.Fprintf(&b, "rpc %s(%s) %s\n", m.GetName(), shortName(m.GetInputType()), shortName(m.GetOutputType()))
		var bs []string
		for _, x := range httpRules(m) {
			bs = append(bs, fmt.Sprintf("  %s %q body=%q custom=%v\n", x.Verb, x.Path, x.Body, x.Custom))
		}
		sort.Strings(bs)
		b.WriteString(strings.Join(bs, ""))
	}
	return b.String(), skip
}

// genParseFile makes a file whose service exercises the parser: any legal
// service with annotations of the documented form.
func genParseFile(r *rand.Rand, n int) *File {
	f := &File{Path: fmt.Sprintf("f%d.proto", n), Pkg: fmt.Sprintf("p%d", n), Imps: []string{"google/api/annotations.proto"}}
	if r.Intn(3) == 0 {
		f.Pkg += ".v1.sub"
	}
	if r.Intn(3) > 0 {
		f.GoPkg = "example.com/" + pick(r, words)
	}
	// service, message and enum names must differ
	used := map[string]bool{}
	var types []string
	for i := 0; i <= r.Intn(4); i++ {
		m := &Msg{Name: camel(r, used)}
		fu := map[string]bool{}
		for j := 0; j <= r.Intn(4); j++ {
			m.Fields = append(m.Fields, &Field{Name: ident(r, fu, true), Num: j + 1, Type: pick(r, scalarKinds),
				Label: pick(r, []string{"", "", "repeated"})})
		}
		if r.Intn(5) == 0 {
			m.Fields = append(m.Fields, &Field{Name: ident(r, fu, true), Num: 20, Type: "string", Oneof: "one_" + ident(r, fu, false)},
				&Field{Name: ident(r, fu, true), Num: 21, Type: "int32"})
			m.Fields[len(m.Fields)-1].Oneof = m.Fields[len(m.Fields)-2].Oneof
		}
		if r.Intn(5) == 0 {
			m.Nested = append(m.Nested, &Msg{Name: "Inner" + fmt.Sprint(r.Intn(9))})
			types = append(types, m.Name+"."+m.Nested[0].Name)
		}
		f.Msgs = append(f.Msgs, m)
		types = append(types, m.Name)
		if r.Intn(3) == 0 {
			types = append(types, f.Pkg+"."+m.Name)
		}
		if r.Intn(3) == 0 {
			types = append(types, "."+f.Pkg+"."+m.Name)
		}
	}
	if r.Intn(3) == 0 {
		e := camel(r, used)
		f.Enums = append(f.Enums, &Enum{Name: e, Values: []string{strings.ToUpper(e) + "_ZERO", strings.ToUpper(e) + "_ONE"}})
	}
	if r.Intn(4) == 0 {
		f.Ext = 60000 + 20*n
	}
	f.Svc = &Svc{}
	f.Svc.Name = svcName(r, used, true)
	nrpc := 0
	for nrpc < r.Intn(6) {
		nrpc++
	}
	if r.Intn(60) == 0 {
		nrpc = 20 + r.Intn(100)
	}
	for i := 0; i < nrpc; i++ {
		p := &Rpc{In: pick(r, types), Out: pick(r, types)}
		if r.Intn(3) == 0 {
			p.Name = ident(r, used, true)
		} else {
			p.Name = camel(r, used)
		}
		if r.Intn(10) == 0 {
			p.CStream = r.Intn(2) == 0
			p.SStream = !p.CStream || r.Intn(2) == 0
		}
		p.Braces = r.Intn(2) == 0
		if r.Intn(3) == 0 {
			p.Other = 1 + r.Intn(2)
			if f.Ext > 0 {
				p.Other += r.Intn(3)
				p.Ext = true
			}
		}
		if r.Intn(4) > 0 {
			for j := 0; j <= r.Intn(4); j++ {
				b := Binding{Verb: pick(r, verbs), Path: genPathText(r)}
				if r.Intn(8) == 0 {
					b.Custom = true
					b.Verb = pick(r, []string{"HEAD", "OPTIONS", "head", "TRACE"})
				}
				switch r.Intn(4) {
				case 0:
					b.Body = "*"
				case 1:
					b.Body = pick(r, words)
				}
				p.HTTP = append(p.HTTP, b)
			}
		}
		f.Svc.Rpcs = append(f.Svc.Rpcs, p)
	}
	return f
}

func genPathText(r *rand.Rand) string {
	var parts []string
	for i := 0; i <= r.Intn(5); i++ {
		switch r.Intn(6) {
		case 0, 1:
			parts = append(parts, "{"+pick(r, words)+"_"+pick(r, words)+"}")
		case 2:
			parts = append(parts, "{"+pick(r, words)+"."+pick(r, words)+"}")
		case 3:
			parts = append(parts, pick(r, []string{"v1", "v2beta", "a-b", "a.b", "~x", "//"[:1] + "x", "rpc", "service", "a,b", "a;b", "a:verb", "*", "**"}))
		default:
			parts = append(parts, pick(r, words))
		}
	}
	return "/" + strings.Join(parts, "/")
}

// parseCase is one text with what protoc says of it.
type parseCase struct {
	file   *File
	text   string
	layout int
	want   string
	skip   map[string]bool
}

// parseCases generates n cases, each file in every layout, judged by protoc.
func (h *H) parseCases(name string, n int) []parseCase {
	r := h.Rand(name)
	var cases []parseCase
	for i := 0; i < n; i++ {
		f := genParseFile(r, i)
		cases = append(cases, parseCase{file: f, text: f.Text(), layout: pretty})
		for l := oneline; l < numLayouts; l++ {
			tr := rand.New(rand.NewSource(r.Int63()))
			cases = append(cases, parseCase{file: f, text: f.tokens(tr).render(l, tr), layout: l})
		}
	}
	h.judge(cases)
	return cases
}

// judge sets what protoc says of the cases.
func (h *H) judge(cases []parseCase) {
	const batch = 100
	parallel((len(cases)+batch-1)/batch, func(k int) {
		dir := filepath.Join(h.W, "protoc", fmt.Sprint(h.Prop, "-", k))
		var files []string
		lo, hi := k*batch, min((k+1)*batch, len(cases))
		for i := lo; i < hi; i++ {
			// layouts of a file define the same names: each is a set of its own
			name := fmt.Sprintf("c%d.proto", i)
			text := cases[i].text
			write(filepath.Join(dir, name), text)
			files = append(files, name)
		}
		// files with the same package clash in one run of protoc
		for l := 0; l < numLayouts; l++ {
			var fs []string
			for i := lo; i < hi; i++ {
				if cases[i].layout == l {
					fs = append(fs, files[i-lo])
				}
			}
			if len(fs) == 0 {
				continue
			}
			set, err := h.protoc(dir, fs...)
			if err != nil {
				panic(fmt.Sprintf("protoc refuses generated files: %v", err))
			}
			for i := lo; i < hi; i++ {
				if cases[i].layout == l {
					cases[i].want, cases[i].skip = normDesc(set[files[i-lo]])
				}
			}
		}
	})
}

func init() {
	checks["C01"] = checkDef{
		run:  runC01,
		rule: "a generated or listed .proto file in one of four layouts (canonical, one line, random white space and CRLF, comments between any two tokens), parsed by the real parser and compared with the descriptor protoc makes of the same text; non-trivial: it has a service with at least one rpc",
		assumes: []string{"protoc 3.21.12 says what a .proto file means",
			"streaming rpcs, which HTTP cannot serve, and rpcs without an annotation are outside the comparison"},
	}
}

// listed files: each was once parsed wrongly, or stands at an edge of the language
var parseListed = []string{
	// comments with runs of stars
	"/** x **/ service S { /***/ rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" /****/ }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" }; } } // end",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" }; } } /* end */",
	"message service_x { string service = 1; } service S { rpc service(M) returns (M) { option (google.api.http) = { get: \"/service\" }; } }",
	"message X { string service = 1; message rpc { int32 option = 1; } } service S { rpc A(M) returns (M); }",
	"enum E { service = 0; rpc = 1; } service S { rpc A(M) returns (M); }",
	"service S { rpc A(M) returns (M) { option deprecated = true; option (google.api.http) = { post: '/a/{s}' body: '*' }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { post: \"/a\" body: \"*\" }; option deprecated = true; } }",
	"service S { option deprecated = true; rpc A(M) returns (M) {} ; rpc B(M) returns (M) { }; ; }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" additional_bindings { post: \"/b\" body: \"*\" } additional_bindings { custom { kind: \"HEAD\" path: \"/c\" } } }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { custom { kind: \"OPTIONS\" path: \"/o\" } body: \"*\" }; } rpc B(M) returns (M); }",
	"service S { }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a//b/*c*/\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a}/{b\" }; } rpc B(M) returns (M) {} }",
	"service S { rpc A(stream M) returns (M) { option (google.api.http) = { post: \"/a\" }; } rpc B(M) returns (M) { option (google.api.http) = { get: \"/b\" }; } rpc C(M) returns (stream M); rpc D(M) returns (M); }",
	"service\nS\n{\nrpc\nA\n(\nM\n)\nreturns\n(\nM\n)\n;\n}",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { delete: \"/a\" additional_bindings { delete: \"/b\" } }; } }",
	"message T { string s = 1 [json_name=\"service S2 {\"]; } service S { rpc A(M) returns (M); }",
	"service S { rpc A(.q.M) returns (.q.M) { option (google.api.http) = { get: \"/a\" }; } rpc B( . q . M) returns (stream .q.M); }",
	"message T { oneof service { string a = 1; } map<string, int32> rpc = 2; reserved 5 to 7; reserved \"x\"; } service S { rpc A(M) returns (M); }",
}

// Forms the documentation does not promise. Refusing them is right, reading
// them wrongly is not.
var parseExotic = []string{
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\", body: \"*\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\"; body: \"*\"; }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { additional_bindings { get: \"/b\" } get: \"/a\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" additional_bindings: { get: \"/b\" } }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http).get = \"/a\"; } }",
	"service S { rpc A(M) returns (M) { option (.google.api.http) = { get: \"/a\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" \"/b\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { custom: { kind: \"HEAD\" path: \"/c\" } }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { selector: \"x\" get: \"/a\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" response_body: \"s\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = < get: \"/a\" >; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { additional_bindings: [ { get: \"/b\" }, { get: \"/c\" } ] get: \"/a\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\\x62\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\\\"b\" }; } }",
	"service S { rpc A(M) returns (M) { option (google . api . http) = { get: \"/a\" }; } }",
	"service S { rpc A(M) returns (M) { option (google.api.http) = { # comment\n get: \"/a\" }; } }",
}

// genLiteral makes a string literal as protobuf writes them: either quote, all
// escapes. plain says that it has none but those of quotes and backslashes.
func genLiteral(r *rand.Rand) (lit string, plain bool) {
	q := pick(r, []string{"'", "\""})
	plain = true
	var b strings.Builder
	for n := r.Intn(6); n >= 0; n-- {
		switch r.Intn(12) {
		case 0:
			b.WriteString(pick(r, []string{"'", "\""}))
			if s := b.String(); s[len(s)-1:] == q {
				lit := s[:len(s)-1]
				b.Reset()
				b.WriteString(lit + "\\" + q)
			}
		case 1:
			b.WriteString("\\" + q)
		case 2:
			b.WriteString("\\\\")
		case 3:
			b.WriteString(pick(r, []string{"//", "/*", "*/", "#", ";", "{", "}", "};", "\t"}))
		case 4:
			b.WriteString(pick(r, []string{"日本", "é", "%2F", "%", "\u00a0"}))
		case 5:
			if r.Intn(3) == 0 {
				plain = false
				b.WriteString(pick(r, []string{"\\n", "\\t", "\\x41", "\\x4", "\\101", "\\7", "\\?", "\\u0041", "\\U00000041", "\\a", "\\v", "\\X4a", "\\'", "\\\""}))
			}
		default:
			b.WriteString(pick(r, words))
		}
	}
	return q + b.String() + q, plain
}

// literalCase makes a definition with such literals in and around its service.
func literalCase(r *rand.Rand) (text string, plain bool) {
	var b strings.Builder
	other := func() string { l, _ := genLiteral(r); return l }
	if r.Intn(2) == 0 {
		fmt.Fprintf(&b, "option java_outer_classname = %s;\n", other())
	}
	if r.Intn(2) == 0 {
		fmt.Fprintf(&b, "extend google.protobuf.MethodOptions { string mo = 60001; }\n")
		fmt.Fprintf(&b, "extend google.protobuf.ServiceOptions { string so = 60002; }\n")
	} else {
		other = func() string { return "" }
	}
	opt := func(name string) {
		if l := other(); l != "" && r.Intn(2) == 0 {
			fmt.Fprintf(&b, " option (%s) = %s;", name, l)
		}
	}
	b.WriteString("service S {")
	opt("so")
	plain = true
	for i := 0; i <= r.Intn(3); i++ {
		fmt.Fprintf(&b, " rpc R%d(M) returns (M) {", i)
		opt("mo")
		l, p := genLiteral(r)
		plain = plain && p
		fmt.Fprintf(&b, " option (google.api.http) = { %s: %s", pick(r, verbs), l)
		if r.Intn(2) == 0 {
			l, p := genLiteral(r)
			plain = plain && p
			fmt.Fprintf(&b, " additional_bindings { custom { kind: \"HEAD\" path: %s } }", l)
		}
		b.WriteString(" };")
		if i%2 == 1 {
			opt("mo")
		}
		b.WriteString(" }")
	}
	b.WriteString(" }\n")
	return b.String(), plain
}

// exoticCase is a service whose annotations are written in all ways text format
// and options know: most of them baron does not promise to understand.
func exoticCase(r *rand.Rand) string {
	n := 0
	path := func() string { n++; return fmt.Sprintf("\"/p%d\"", n) }
	colon := func() string { return pick(r, []string{"", ":", " :"}) }
	exotic := 2 + r.Intn(12)
	sep := func() string {
		if r.Intn(exotic*3) == 0 {
			return pick(r, []string{", ", "; "})
		}
		return " "
	}
	msg := func(in string) string {
		if r.Intn(exotic) == 0 {
			return "< " + in + " >"
		}
		return "{ " + in + " }"
	}
	pattern := func() string {
		if r.Intn(3) == 0 {
			fs := []string{"kind: \"HEAD\"", "path: " + path()}
			if r.Intn(2) == 0 {
				fs[0], fs[1] = fs[1], fs[0]
			}
			return "custom" + colon() + " " + msg(fs[0]+sep()+fs[1])
		}
		return pick(r, verbs) + ": " + path()
	}
	rule := func() []string {
		fs := []string{pattern()}
		if r.Intn(2) == 0 {
			fs = append(fs, pick(r, []string{"body: \"*\"", "body: \"s\"", "selector: \"x\"", "response_body: \"s\""}))
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		return fs
	}
	join := func(fs []string) string {
		s := ""
		for _, f := range fs {
			s += f + sep()
		}
		return strings.TrimRight(s, ",; ")
	}
	more := func() string {
		if r.Intn(exotic) == 0 {
			var l []string
			for i := r.Intn(3); i >= 0; i-- {
				l = append(l, msg(join(rule())))
			}
			return "additional_bindings" + colon() + " [ " + strings.Join(l, ", ") + " ]"
		}
		return "additional_bindings" + colon() + " " + msg(join(rule()))
	}
	var b strings.Builder
	b.WriteString("service S {")
	for i := 0; i <= r.Intn(3); i++ {
		fmt.Fprintf(&b, " rpc R%d(M) returns (M) {", i)
		name := pick(r, []string{"(google.api.http)", "(google.api.http)", "( google.api . http )", "(.google.api.http)"})
		if r.Intn(exotic) == 0 {
			// by parts
			if r.Intn(3) == 0 {
				fmt.Fprintf(&b, " option %s.custom = { %s };", name, join([]string{"kind: \"HEAD\"", "path: " + path()}))
			} else {
				fmt.Fprintf(&b, " option %s.%s = %s;", name, pick(r, verbs), path())
			}
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, " option %s.additional_bindings = { %s };", name, join(rule()))
			}
			if r.Intn(3) == 0 {
				fmt.Fprintf(&b, " option %s.body = \"*\";", name)
			}
		} else {
			fs := rule()
			for r.Intn(2) == 0 {
				fs = append(fs, more())
			}
			if r.Intn(exotic) == 0 {
				r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			}
			fmt.Fprintf(&b, " option %s = { %s };", name, join(fs))
		}
		b.WriteString(" }")
	}
	b.WriteString(" }\n")
	return b.String()
}

func wrapListed(body string) string {
	return "syntax = \"proto3\";\npackage q;\nimport \"google/api/annotations.proto\";\nmessage M { string s = 1; }\n" + body
}

func runC01(h *H) {
	cases := h.parseCases("files", h.N(12000, 100000))
	p := newPool(h.Worker(false), 8)
	defer p.Close()
	parallel(len(cases), func(i int) {
		c := cases[i]
		h.comparePar(p, c.text, c.want, c.skip, "generated", fmt.Sprintf("layout %d", c.layout), false)
	})
	listed := append(append([]string{}, parseListed...), parseExotic...)
	parallel(len(listed), func(i int) {
		text := wrapListed(listed[i])
		dir := filepath.Join(h.W, "listed", fmt.Sprint(i))
		write(filepath.Join(dir, "l.proto"), text)
		set, err := h.protoc(dir, "l.proto")
		if err != nil {
			if i < len(parseListed) {
				panic(err)
			}
			h.Count("exotic forms protoc refuses", 1)
			return
		}
		want, skip := normDesc(set["l.proto"])
		h.comparePar(p, text, want, skip, fmt.Sprintf("listed %d", i), "", i >= len(parseListed))
	})
	// annotations of all forms
	re := h.Rand("exotic")
	var exotic []string
	for i := 0; i < h.N(1200, 12000); i++ {
		exotic = append(exotic, wrapListed(exoticCase(re)))
	}
	parallel(len(exotic), func(i int) {
		dir := filepath.Join(h.W, "exotic", fmt.Sprint(i))
		write(filepath.Join(dir, "l.proto"), exotic[i])
		set, err := h.protoc(dir, "l.proto")
		if err != nil {
			h.Count("exotic forms protoc refuses", 1)
			return
		}
		want, skip := normDesc(set["l.proto"])
		h.Count("definitions with annotations of all forms", 1)
		h.comparePar(p, exotic[i], want, skip, "exotic", "", true)
	})
	// string literals of all forms
	r := h.Rand("literals")
	type lit struct {
		text  string
		plain bool
	}
	var lits []lit
	for i := 0; i < h.N(600, 6000); i++ {
		t, p := literalCase(r)
		lits = append(lits, lit{strings.Replace(wrapListed(t), "import", "import \"google/protobuf/descriptor.proto\";\nimport", 1), p})
	}
	parallel(len(lits), func(i int) {
		dir := filepath.Join(h.W, "literal", fmt.Sprint(i))
		write(filepath.Join(dir, "l.proto"), lits[i].text)
		set, err := h.protoc(dir, "l.proto")
		if err != nil {
			h.Count("literals protoc refuses", 1)
			return
		}
		want, skip := normDesc(set["l.proto"])
		h.Count("definitions with literals of all forms", 1)
		h.comparePar(p, lits[i].text, want, skip, "literals", "", !lits[i].plain)
	})
}

// comparePar parses the text and compares the outcome with the descriptor.
func (h *H) comparePar(p *pool, text, want string, skip map[string]bool, what, how string, mayRefuse bool) {
	var rep pReply
	if err := p.Call(map[string]interface{}{"Op": "parse", "Src": text}, &rep); err != nil {
		h.Violation("parser does not return", map[string]interface{}{"input": text, "failure": err.Error()})
		return
	}
	h.Eval(text, strings.Contains(want, "\nrpc"))
	h.Count("bindings declared", strings.Count(want, "\n  "))
	if rep.Err != "" {
		if mayRefuse {
			h.Count("exotic forms refused", 1)
			return
		}
		h.Violation("a valid definition is refused", map[string]interface{}{"input": text, "error": rep.Err, "case": what, "how": how, "want": want})
		return
	}
	got := rep.Svc.norm(skip)
	if got != want {
		h.Violation("the parsed service differs from the declared one ("+what+")", map[string]interface{}{
			"input": text, "how": how, "want": want, "got": got, "first difference": firstDiff(want, got)})
		return
	}
	if len(want) > 200 {
		h.Sample(map[string]string{"layout": how, "input": clip(text, 600), "meaning": clip(want, 600)})
	}
}
