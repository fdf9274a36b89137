package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// The model of a .proto file from which the harness generates its inputs.

type Field struct {
	Name  string
	Num   int
	Type  string // as written: "string", "Color", "map<string, int32>"
	Kind  string // scalar kind, "enum", "message", "map"
	Label string // "", "optional", "repeated"
	Oneof string
}

type Msg struct {
	Name   string
	Fields []*Field
	Nested []*Msg
}

type Enum struct {
	Name   string
	Values []string
}

type Binding struct {
	Verb   string // lower case, or the kind of a custom pattern
	Path   string
	Body   string
	Custom bool
}

type Rpc struct {
	Name, In, Out    string
	CStream, SStream bool
	HTTP             []Binding // the primary first
	Other            int       // how many unrelated options
	Ext              bool      // options of the file's own among the unrelated ones
	Full             string    // what the types are written after: "", or a dot and the package
	Braces           bool      // an empty body is written {} and not ;
}

type Svc struct {
	Name string
	Rpcs []*Rpc
}

type File struct {
	Path  string
	Pkg   string
	GoPkg string
	Imps  []string
	Msgs  []*Msg
	Enums []*Enum
	Svc   *Svc
	Ext   int // the number of options of the file's own, or 0

	// what generation keeps for later changes
	used, paths         map[string]bool
	msgNames, enumNames []string
}

var scalarKinds = []string{"string", "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
	"fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bytes"}

// pathKinds are the kinds a path parameter can have.
var pathKinds = []string{"string", "bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
	"fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "enum"}

var verbs = []string{"get", "get", "put", "post", "delete", "patch"}

func pick[T any](r *rand.Rand, s []T) T { return s[r.Intn(len(s))] }

var words = strings.Fields(`alpha beta gamma delta item order user account client name id key value count page size
 total status kind note flag rate price city zip code owner group team role level score rank tag label title text
 start end limit offset query filter sort next prev parent child source target event stream token region zone server client handler`)

var tricky = strings.Fields(`service rpc returns option message enum import package syntax get post put delete patch body
 custom additional_bindings http google type func string2 range map2 select interface chan error nil true false len
 new make default case go if for var const struct return req resp err ctx proto json data path values http2 strval u
 server client endpoint endpoints svc pb service2 is is_server request response metadata grpc nats conn msg unsafe context mu init main string tmp to_ret buf r m k v url bytes2 io strings strconv fmt errors mux
 reset descriptor marshal unmarshal proto_message extension_map XXXrated XXX x_rated is_open`)

// ident makes a lower case identifier which is new to the set of used ones.
func ident(r *rand.Rand, used map[string]bool, withTricky bool) string {
	for {
		var s string
		switch n := r.Intn(10); {
		case withTricky && n < 3:
			s = pick(r, tricky)
		case withTricky && n < 4 && r.Intn(2) == 0:
			s = pick(r, words)
			s = pick(r, []string{s + "_", "_" + s, s + "__" + pick(r, words), s + "_X", s + "__", "_" + s + "_"})
		case n < 6:
			s = pick(r, words) + "_" + pick(r, words)
		case n < 7:
			s = pick(r, words) + fmt.Sprint(r.Intn(100))
		case n < 8:
			s = pick(r, words) + "_" + fmt.Sprint(r.Intn(100)) + "_" + pick(r, words)
		case n < 9:
			s = pick(r, words) + title(pick(r, words))
		default:
			s = pick(r, words)
		}
		k := squash(s)
		if !used[k] {
			used[k] = true
			return s
		}
	}
}

// squash maps names which Go or JSON spelling could confuse to the same key.
func squash(s string) string { return strings.ToLower(strings.Replace(s, "_", "", -1)) }

func title(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

// camel makes an upper camel case identifier
func camel(r *rand.Rand, used map[string]bool) string {
	for {
		s := title(pick(r, words))
		for r.Intn(2) == 0 {
			s += title(pick(r, words))
		}
		if r.Intn(6) == 0 {
			s += fmt.Sprint(r.Intn(10))
		}
		k := squash(s)
		if !used[k] {
			used[k] = true
			return s
		}
	}
}

// --- rendering ---

// A token list is what a file says; the layout decides how it looks.
type tokens struct{ t []string }

func (t *tokens) add(s ...string) { t.t = append(t.t, s...) }

// words splits simple text into tokens
func (t *tokens) text(s string) {
	t.add(strings.Fields(s)...)
}

func quote(r *rand.Rand, s string) string {
	if r != nil && r.Intn(4) == 0 {
		return "'" + s + "'"
	}
	return `"` + s + `"`
}

func (m *Msg) tokens(t *tokens, r *rand.Rand) {
	t.add("message", m.Name, "{")
	for _, n := range m.Nested {
		n.tokens(t, r)
	}
	for i := 0; i < len(m.Fields); i++ {
		f := m.Fields[i]
		if f.Oneof != "" {
			t.add("oneof", f.Oneof, "{")
			for ; i < len(m.Fields) && m.Fields[i].Oneof == f.Oneof; i++ {
				g := m.Fields[i]
				t.add(g.Type, g.Name, "=", fmt.Sprint(g.Num), ";")
			}
			i--
			t.add("}")
			continue
		}
		if f.Label != "" {
			t.add(f.Label)
		}
		t.add(f.Type, f.Name, "=", fmt.Sprint(f.Num))
		if r != nil && r.Intn(8) == 0 {
			t.add("[", "deprecated", "=", "true", "]")
		}
		t.add(";")
	}
	t.add("}")
}

func (b Binding) tokens(t *tokens, r *rand.Rand, rest func()) {
	var parts []func()
	path := func(key, val string) func() {
		return func() { t.add(key, ":", quote(r, val)) }
	}
	if b.Custom {
		parts = append(parts, func() {
			t.add("custom")
			t.add("{")
			if r != nil && r.Intn(2) == 0 {
				path("path", b.Path)()
				path("kind", b.Verb)()
			} else {
				path("kind", b.Verb)()
				path("path", b.Path)()
			}
			t.add("}")
		})
	} else {
		parts = append(parts, path(b.Verb, b.Path))
	}
	if b.Body != "" {
		parts = append(parts, path("body", b.Body))
		if r != nil && r.Intn(3) == 0 {
			parts[0], parts[1] = parts[1], parts[0]
		}
	}
	for _, p := range parts {
		p()
	}
	if rest != nil {
		rest()
	}
}

var otherRPCOptions = []string{
	"option deprecated = false ;",
	"option deprecated = true ;",
	"option idempotency_level = NO_SIDE_EFFECTS ;",
	"option idempotency_level = IDEMPOTENT ;",
}

// Options of one's own, by name and value.
var extOptions = [][]string{
	{"(", "x_note", ")", "=", `"rpc X(Y) returns (Z) { }"`},
	{"(", "x_note", ")", "=", `"a"`, `'}'`},
	{"(", "x_flag", ")", "=", "true"},
	{"(", "x_num", ")", "=", "-", "12"},
	{"(", "x_real", ")", "=", "1.5e-3"},
	{"(", "x_opts", ")", "=", "{", "}"},
	{"(", "x_opts", ")", "=", "{", "a", ":", `"}"`, "b", ":", "[", "1", ",", "2", "]", "}"},
	{"(", "x_opts", ")", "=", "{", "a", ":", `"{ get: \"/no\" }"`, "c", "{", "d", "{", "a", ":", `"//"`, "}", "d", "{", "}", "}", "}"},
	{"(", "x_opts", ")", "=", "{", "d", ":", "[", "{", "a", ":", `'/*'`, "}", ",", "{", "b", ":", "3", "}", "]", "c", ":", "{", "a", ":", `"rpc"`, "}", "}"},
	{"(", "x_opts", ")", ".a", "=", `"{"`},
	{"(", "x_opts", ")", ".c.a", "=", `"}"`},
}

// full names a type of the file's package as the rpc does.
func (p *Rpc) full(typ string) string {
	if strings.Contains(typ, ".") && typ[0] >= 'a' {
		return typ // of another package
	}
	return p.Full + typ
}

func (p *Rpc) tokens(t *tokens, r *rand.Rand) {
	t.add("rpc", p.Name, "(")
	if p.CStream {
		t.add("stream")
	}
	t.add(p.full(p.In), ")", "returns", "(")
	if p.SStream {
		t.add("stream")
	}
	t.add(p.full(p.Out), ")")
	if len(p.HTTP) == 0 && p.Other == 0 {
		if p.Braces {
			t.add("{", "}")
		} else {
			t.add(";")
		}
		return
	}
	t.add("{")
	seen := map[string]bool{}
	other := func(n int) {
		for i := 0; i < n; i++ {
			o := otherRPCOptions[0]
			if r != nil {
				o = pick(r, otherRPCOptions)
			}
			name := strings.Fields(o)[1]
			if p.Ext && r != nil && r.Intn(2) == 0 {
				e := pick(r, extOptions)
				if name = e[1]; !seen[name] {
					seen[name] = true
					t.add("option")
					t.add(e...)
					t.add(";")
				}
				continue
			}
			if !seen[name] {
				seen[name] = true
				t.text(o)
			}
		}
	}
	before := p.Other
	if r != nil && p.Other > 0 {
		before = r.Intn(p.Other + 1)
	}
	other(before)
	if len(p.HTTP) > 0 {
		t.add("option", "(", "google.api.http", ")", "=", "{")
		p.HTTP[0].tokens(t, r, func() {
			for _, b := range p.HTTP[1:] {
				t.add("additional_bindings")
				t.add("{")
				b.tokens(t, r, nil)
				t.add("}")
			}
		})
		t.add("}")
		t.add(";")
	}
	other(p.Other - before)
	t.add("}")
}

func (f *File) tokens(r *rand.Rand) *tokens {
	t := &tokens{}
	t.add("syntax", "=", quote(r, "proto3"), ";")
	if f.Pkg != "" {
		t.add("package", f.Pkg, ";")
	}
	if f.GoPkg != "" {
		t.add("option", "go_package", "=", quote(r, f.GoPkg), ";")
	}
	for _, i := range f.Imps {
		t.add("import", quote(r, i), ";")
	}
	var decls []func()
	if f.Ext > 0 {
		t.add("import", quote(r, "google/protobuf/descriptor.proto"), ";")
		decls = append(decls, func() {
			t.text("message XOpts { string a = 1 ; repeated int32 b = 2 ; XOpts c = 3 ; repeated XOpts d = 4 ; }")
		})
		for i, on := range []string{"Method", "Service"} {
			on, n := on, f.Ext+10*i
			x := "x_"
			if i > 0 {
				x = "s_"
			}
			decls = append(decls, func() {
				t.text(fmt.Sprintf("extend google.protobuf.%sOptions { string %snote = %d ; bool %sflag = %d ; int32 %snum = %d ; double %sreal = %d ; XOpts %sopts = %d ; }",
					on, x, n, x, n+1, x, n+2, x, n+3, x, n+4))
			})
		}
	}
	for _, e := range f.Enums {
		e := e
		decls = append(decls, func() {
			t.add("enum", e.Name, "{")
			for i, v := range e.Values {
				t.add(v, "=", fmt.Sprint(i), ";")
			}
			t.add("}")
		})
	}
	for _, m := range f.Msgs {
		m := m
		decls = append(decls, func() { m.tokens(t, r) })
	}
	if f.Svc != nil {
		decls = append(decls, func() {
			t.add("service", f.Svc.Name, "{")
			if r != nil && r.Intn(4) == 0 {
				t.text("option deprecated = false ;")
			}
			if r != nil && f.Ext > 0 && r.Intn(2) == 0 {
				e := append([]string{}, pick(r, extOptions)...)
				e[1] = "s_" + e[1][2:]
				t.add("option")
				t.add(e...)
				t.add(";")
			}
			for _, p := range f.Svc.Rpcs {
				p.tokens(t, r)
			}
			t.add("}")
		})
	}
	if r != nil {
		r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	}
	for _, d := range decls {
		d()
	}
	return t
}

var commentTexts = []string{
	"plain words", "service Fake { rpc A(B) returns (C); }", "}", "{", "{{{", "}}", `"quoted`, "it's", "/ slash", "* star *",
	"option (google.api.http) = { get: \"/fake\" };", "rpc", "get: \"/no\"", "returns (X)", "日本語", "**", "***", "a /* b", "\\", ";", ":",
	"message M { string s = 1; }", "import \"x.proto\";", "", "//", "http://example.com/a",
}

// layouts
const (
	pretty = iota
	oneline
	wild
	commented
	numLayouts
)

// render lays the tokens out. Any layout is the same file to protoc.
func (t *tokens) render(layout int, r *rand.Rand) string {
	var b strings.Builder
	indent := 0
	nl := "\n"
	if layout == wild && r.Intn(3) == 0 {
		nl = "\r\n"
	}
	// in some files one gap between tokens is very long
	long := -1
	if (layout == wild || layout == commented) && len(t.t) > 1 && r.Intn(15) == 0 {
		long = r.Intn(len(t.t) - 1)
	}
	for i, tok := range t.t {
		next := ""
		if i+1 < len(t.t) {
			next = t.t[i+1]
		}
		if tok == "{" {
			indent++
		}
		if next == "}" {
			indent--
		}
		b.WriteString(tok)
		if next == "" {
			break
		}
		lineEnd := tok == "{" || tok == ";" || tok == "}"
		needSpace := !isPunct(tok) && !isPunct(next)
		switch layout {
		case pretty:
			switch {
			case lineEnd && next != ";":
				b.WriteString(nl + strings.Repeat("  ", max(indent, 0)))
			case isPunct(next) && next != "{" && next != "=" && next != "(" || tok == "(" || tok == "[":
			default:
				b.WriteString(" ")
			}
			// values of an annotation are written one per line
			if strings.HasPrefix(tok, `"`) && next != ";" && next != "}" {
				b.WriteString(nl + strings.Repeat("  ", max(indent, 0)))
			}
		case oneline:
			if needSpace || r.Intn(2) == 0 {
				b.WriteString(" ")
			}
		case wild:
			n := r.Intn(4)
			if needSpace && n == 0 {
				n = 1
			}
			if i == long {
				n = 5000 + r.Intn(90000)
			}
			for j := 0; j < n; j++ {
				b.WriteString(pick(r, []string{" ", "\t", nl, "  ", nl + "  "}))
			}
		case commented:
			if needSpace {
				b.WriteString(" ")
			}
			for r.Intn(4) == 0 || i == long {
				txt := pick(r, commentTexts)
				if i == long {
					long = -1
					txt = strings.Repeat(txt+" ", pick(r, []int{5000, 70000, 140000})/(len(txt)+1))
				}
				if r.Intn(2) == 0 {
					b.WriteString("//" + txt + "\n")
				} else {
					b.WriteString("/*" + strings.TrimRight(strings.Replace(txt, "/*", "", -1), "/") + pick(r, []string{"*/", "**/", " */", "\n*/"}))
				}
				if r.Intn(2) == 0 {
					b.WriteString(pick(r, []string{" ", "\n", "\t"}))
				}
			}
			if lineEnd {
				b.WriteString("\n")
			}
		}
	}
	if layout != commented || r.Intn(2) == 0 {
		b.WriteString(nl)
	} else if r.Intn(2) == 0 {
		b.WriteString("// the end")
	}
	return b.String()
}

func isPunct(s string) bool {
	switch s {
	case "{", "}", ";", ":", "=", "(", ")", "[", "]":
		return true
	}
	return strings.HasPrefix(s, `"`) || strings.HasPrefix(s, "'")
}

// Text is the canonical form of the file.
func (f *File) Text() string { return f.tokens(nil).render(pretty, nil) }
