package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Generation of services baron is to build: legal files within what its
// documentation covers.

type genOpts struct {
	Rpcs      int  // at most
	NoHTTP    bool // an rpc may lack an annotation
	Tricky    bool // names which are keywords somewhere
	Oneofs    bool
	Maps      bool
	Wkt       bool // well known types as fields
	Nested    bool
	Optional  bool
	Streams   bool
	LowerRPC  bool // rpc and service names which are not camel case
	DottedPkg bool
	Overlap   bool // one path may fit several bindings
	Dotted    bool // parameters which name part of a field
	Imported  bool // requests and replies which are well known types
}

var wktFields = []struct{ typ, imp string }{
	{"google.protobuf.Timestamp", "google/protobuf/timestamp.proto"},
	{"google.protobuf.Duration", "google/protobuf/duration.proto"},
	{"google.protobuf.StringValue", "google/protobuf/wrappers.proto"},
	{"google.protobuf.Int64Value", "google/protobuf/wrappers.proto"},
	{"google.protobuf.Struct", "google/protobuf/struct.proto"},
	{"google.protobuf.FieldMask", "google/protobuf/field_mask.proto"},
	{"google.protobuf.Any", "google/protobuf/any.proto"},
	{"google.protobuf.Empty", "google/protobuf/empty.proto"},
}

func (f *File) imp(path string) {
	for _, i := range f.Imps {
		if i == path {
			return
		}
	}
	f.Imps = append(f.Imps, path)
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// genField adds a field of any allowed type to m.
func (f *File) genField(r *rand.Rand, m *Msg, used map[string]bool, o genOpts, msgs, enums []string) *Field {
	fl := &Field{Name: ident(r, used, o.Tricky), Num: len(m.Fields) + 1}
	if o.Tricky && len(m.Fields) > 0 && r.Intn(15) == 0 {
		// a field whose Go name the getter of another takes
		if n := "get_" + pick(r, m.Fields).Name; !used[squash(n)] {
			used[squash(n)] = true
			fl.Name = n
		}
	}
	switch n := r.Intn(20); {
	case n < 2 && len(enums) > 0:
		fl.Type, fl.Kind = pick(r, enums), "enum"
	case n < 4 && len(msgs) > 0:
		fl.Type, fl.Kind = pick(r, msgs), "message"
	case n < 5 && o.Maps:
		key := pick(r, []string{"string", "int32", "int64", "bool", "uint32", "sint64", "fixed32"})
		val := pick(r, scalarKinds)
		if len(msgs) > 0 && r.Intn(4) == 0 {
			val = pick(r, msgs)
		} else if len(enums) > 0 && r.Intn(4) == 0 {
			val = pick(r, enums)
		}
		fl.Type, fl.Kind = "map<"+key+", "+val+">", "map"
	case n < 6 && o.Wkt:
		w := wktFields[r.Intn(len(wktFields))]
		fl.Type, fl.Kind = w.typ, "wkt"
		f.imp(w.imp)
	case n < 9:
		fl.Type, fl.Kind = "string", "string"
	default:
		fl.Type = pick(r, scalarKinds)
		fl.Kind = fl.Type
	}
	if fl.Kind != "map" {
		switch r.Intn(6) {
		case 0:
			fl.Label = "repeated"
		case 1:
			if o.Optional {
				fl.Label = "optional"
			}
		}
	}
	m.Fields = append(m.Fields, fl)
	return fl
}

// genFile makes a service with its messages. name is also the Go package name.
func genFile(r *rand.Rand, name string, o genOpts) *File {
	f := &File{Path: name + "/" + name + ".proto", Pkg: name, GoPkg: "scratch/" + name, Imps: []string{"google/api/annotations.proto"}}
	if o.DottedPkg && r.Intn(3) == 0 {
		f.Pkg = pick(r, []string{"acme." + name + ".v1", "", name + ".v2beta"})
	}
	used := map[string]bool{}
	for _, s := range []string{"endpoints", "labeledmiddleware", "error", "string", "empty", "timestamp", "duration"} {
		used[s] = true
	}
	var enums, msgs []string
	for i := 0; i < 1+r.Intn(2); i++ {
		e := camel(r, used)
		up := strings.ToUpper(e)
		en := &Enum{Name: e}
		for j := 0; j < 2+r.Intn(4); j++ {
			en.Values = append(en.Values, fmt.Sprintf("%s_V%d", up, j))
		}
		f.Enums = append(f.Enums, en)
		enums = append(enums, e)
	}
	// leaf messages
	for i := 0; i < 1+r.Intn(2); i++ {
		m := &Msg{Name: camel(r, used)}
		fu := map[string]bool{}
		oo := o
		oo.Oneofs = false
		for j := 0; j < 1+r.Intn(4); j++ {
			f.genField(r, m, fu, oo, nil, enums)
		}
		if o.Nested && r.Intn(3) == 0 {
			in := &Msg{Name: camel(r, used)}
			iu := map[string]bool{}
			f.genField(r, in, iu, oo, nil, enums)
			m.Nested = append(m.Nested, in)
		}
		f.Msgs = append(f.Msgs, m)
	}
	for _, m := range f.Msgs {
		msgs = append(msgs, m.Name)
		for _, n := range m.Nested {
			msgs = append(msgs, m.Name+"."+n.Name)
		}
	}
	f.Svc = &Svc{}
	f.Svc.Name = svcName(r, used, o.LowerRPC)
	// Two rpcs whose names an English number tells apart would share the names
	// of decoders: the documented naming leaves that to the author.
	paths := map[string]bool{}
	nrpc := 1 + r.Intn(max(o.Rpcs, 1))
	if r.Intn(16) == 0 {
		nrpc = 12 + r.Intn(24) // more than fingers
	}
	for i := 0; i < nrpc; i++ {
		f.genRpc(r, used, paths, o, msgs, enums)
	}
	f.used, f.paths, f.msgNames, f.enumNames = used, paths, msgs, enums
	return f
}

// svcNames are words the names of interfaces in generated code are told apart
// by, and others which only begin or end as they do.
var svcNames = strings.Fields(`Is Issue Island Isolated Unsafe Unsafely Server Servers Client Clients Service Services Stream Streams
 Unimplemented Register New Interface HTTPProxy GRPCBridge NATSGateway Endpoint Wrap Handler Proto Any`)

func svcName(r *rand.Rand, used map[string]bool, lower bool) string {
	for r.Intn(3) == 0 {
		s := title(pick(r, words))
		switch w := pick(r, svcNames); r.Intn(5) {
		case 0:
			s += w
		case 1:
			s += w + title(pick(r, words))
		default:
			s = w + s
		}
		if k := squash(s); !used[k] {
			used[k] = true
			return s
		}
	}
	if lower && r.Intn(4) == 0 {
		return ident(r, used, false)
	}
	return camel(r, used)
}

// number gives the service a name of its own. In half of the files the name
// ends as it did, and of these in half in a word which generated names end in.
func (f *File) number(i int) {
	n := fmt.Sprintf("C%d", i)
	if i/3%2 == 0 {
		f.Svc.Name += n
		return
	}
	if lo := f.Svc.Name[:1]; lo == strings.ToLower(lo) {
		n = strings.ToLower(n)
	}
	f.Svc.Name = n + "x" + f.Svc.Name
	if i/6%2 == 0 {
		f.Svc.Name += []string{"Service", "Server", "Client", "Services", "Cli", "Svc"}[i/12%6]
	}
}

// imported names a type which another package defines.
func (f *File) imported(r *rand.Rand) string {
	w := pick(r, wktFields[:4])
	if r.Intn(2) == 0 {
		w = wktFields[len(wktFields)-1] // Empty, the usual one
	}
	f.imp(w.imp)
	return w.typ
}

// goMsg is the Go name of a message which rpcs name.
func goMsg(name string) string {
	return goCamel(strings.TrimPrefix(name, "google.protobuf."))
}

// genRpc adds an rpc with its messages.
func (f *File) genRpc(r *rand.Rand, used, paths map[string]bool, o genOpts, msgs, enums []string) *Rpc {
	p := &Rpc{}
	for {
		if o.LowerRPC && r.Intn(4) == 0 {
			p.Name = ident(r, used, o.Tricky)
		} else {
			p.Name = camel(r, used)
		}
		if !strings.HasSuffix(squash(p.Name), "zero") && !strings.HasSuffix(squash(p.Name), "one") {
			break
		}
	}
	if o.Tricky && r.Intn(60) == 0 && !used["newservice"] {
		// as the function which makes the handlers
		used["newservice"] = true
		p.Name = "NewService"
	}
	req := &Msg{Name: camel(r, used) + "Request"}
	fu := map[string]bool{}
	nf := 1 + r.Intn(7)
	if r.Intn(40) == 0 {
		nf = 16 + r.Intn(30)
	}
	for j := 0; j < nf; j++ {
		f.genField(r, req, fu, o, msgs, enums)
	}
	if o.Oneofs && r.Intn(5) < 2 {
		oname := ident(r, fu, o.Tricky)
		for j := 0; j < 1+r.Intn(3); j++ {
			fl := f.genField(r, req, fu, genOpts{Tricky: o.Tricky}, msgs, enums)
			fl.Label = ""
			fl.Oneof = oname
		}
	}
	f.Msgs = append(f.Msgs, req)
	rep := &Msg{Name: camel(r, used) + "Reply"}
	ru := map[string]bool{}
	for j := 0; j < r.Intn(5); j++ {
		f.genField(r, rep, ru, o, msgs, enums)
	}
	f.Msgs = append(f.Msgs, rep)
	p.In, p.Out = req.Name, rep.Name
	if o.Streams && r.Intn(6) == 0 {
		p.CStream, p.SStream = r.Intn(2) == 0, true
	}
	p.Other = r.Intn(3) / 2
	if stream := p.CStream || p.SStream; !stream && (!o.NoHTTP || r.Intn(5) > 0) {
		nb := 1
		for r.Intn(3) == 0 && nb < 4 {
			nb++
		}
		if r.Intn(40) == 0 {
			nb = 11 + r.Intn(14) // numbers of two digits
		}
		for b := 0; b < nb; b++ {
			p.HTTP = append(p.HTTP, f.genBinding(r, p, req, paths, o))
		}
	}
	if o.Imported && r.Intn(6) == 0 {
		p.Out = f.imported(r)
	}
	if o.Imported && len(p.HTTP) == 0 && r.Intn(4) == 0 {
		p.In = f.imported(r)
	}
	if f.Pkg != "" && r.Intn(12) == 0 {
		p.Full = "." + f.Pkg + "."
	}
	f.Svc.Rpcs = append(f.Svc.Rpcs, p)
	return p
}

// genBinding makes a binding whose route no other one of the service takes.
func (f *File) genBinding(r *rand.Rand, p *Rpc, req *Msg, paths map[string]bool, o genOpts) Binding {
	b := Binding{Verb: pick(r, verbs)}
	if r.Intn(12) == 0 {
		b.Custom = true
		b.Verb = pick(r, []string{"HEAD", "OPTIONS", "TRACE", "purge"})
	}
	inPath := map[string]bool{}
	for {
		segs := []string{pick(r, []string{"v1", "api", "v2"}), strings.ToLower(p.Name)}
		inPath = map[string]bool{}
		for i := 0; i < r.Intn(4); i++ {
			if r.Intn(2) == 0 {
				fl := req.Fields[r.Intn(len(req.Fields))]
				if o.Dotted && !inPath[fl.Name] && fl.Label == "" && fl.Oneof == "" && r.Intn(3) == 0 {
					// part of a field is named
					inPath[fl.Name] = true
					part := pick(r, words)
					if q := req.Fields[r.Intn(len(req.Fields))]; q != fl {
						part = q.Name
					}
					segs = append(segs, "{"+fl.Name+"."+part+"}")
					continue
				}
				if !inPath[fl.Name] && fl.Label != "repeated" && fl.Oneof == "" && has(pathKinds, fl.Kind) {
					inPath[fl.Name] = true
					segs = append(segs, "{"+fl.Name+"}")
					continue
				}
			}
			seg := pick(r, words) + pick(r, []string{"", "", "-x", ".y", "_z", "~"})
			if r.Intn(6) == 0 {
				seg = strings.ToUpper(seg[:1]) + seg[1:]
			}
			if r.Intn(10) == 0 {
				seg += pick(r, []string{"é", "+x", "@y", "$", "!", "(z)", "*", "&w", "=1", "日本", "[a]", "^", "|"})
			}
			segs = append(segs, seg)
		}
		b.Path = "/" + strings.Join(segs, "/")
		switch r.Intn(16) {
		case 0:
			b.Path += "/"
		case 1, 2:
			// the custom methods of google.api.http
			b.Path += ":" + pick(r, words)
		}
		key, taken := routeKey(b), false
		for k := range paths {
			taken = taken || k == key || !o.Overlap && overlap(k, key)
		}
		if !taken {
			paths[key] = true
			break
		}
	}
	if b.Verb == "get" || b.Verb == "HEAD" || b.Verb == "delete" && r.Intn(2) == 0 {
		return b
	}
	switch r.Intn(4) {
	case 0, 1:
		b.Body = "*"
	case 2:
		var c []string
		for _, fl := range req.Fields {
			if !inPath[fl.Name] && fl.Oneof == "" {
				c = append(c, fl.Name)
			}
		}
		if len(c) > 0 {
			b.Body = pick(r, c)
		}
	}
	return b
}

// routeKey is equal for bindings which answer the same requests.
func routeKey(b Binding) string {
	parts := strings.Split(b.Path, "/")
	for i, p := range parts {
		if strings.HasPrefix(p, "{") {
			parts[i] = "{}"
		}
	}
	return strings.ToUpper(b.Verb) + " " + strings.Join(parts, "/")
}

// overlap reports whether a request can fit both keys.
func overlap(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] && x[i] != "{}" && y[i] != "{}" {
			return false
		}
	}
	return true
}

// goCamel is how protoc-gen-go spells a protobuf name in Go.
func goCamel(s string) string {
	var b []byte
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}
