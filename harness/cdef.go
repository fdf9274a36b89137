package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"google.golang.org/protobuf/types/descriptorpb"
)

type dTyp struct {
	Name    string
	Message bool
	MsgName string
	Enum    bool
	Star    bool
	Array   bool
	Key     *dTyp
	Val     *dTyp
	Oneof   []dField
}

type dField struct {
	Name, PB string
	Type     *dTyp
}

type dMessage struct {
	Name   string
	Fields []dField
}

type dBinding struct {
	Verb, Path string
	Params     []struct{ Field, Location string }
}

type dMethod struct {
	Name, In, Out string
	InMsg, OutMsg bool
	Bindings      []dBinding
}

type dDef struct {
	Pkg      string
	Messages []dMessage
	Enums    []string
	Service  string
	Methods  []dMethod
}

type dReply struct {
	Err string
	Def *dDef
}

func init() {
	checks["C04"] = checkDef{
		run:     runC04,
		rule:    "a generated .proto file, compiled by protoc and its Go plugins, from which the real code derives the service definition; every message, field, type, oneof, map, enum and rpc of it is compared with the descriptor; non-trivial: it has a service whose messages have fields",
		assumes: []string{"protoc says what a .proto file means", "protoc-gen-go v1.25.0 and protoc-gen-go-grpc v1.0.1, the versions baron asks for"},
	}
	checks["C05"] = checkDef{
		run:     runC05,
		rule:    "a binding of a generated rpc, for each field of whose request the location in the derived definition is compared with the one the annotation gives it; non-trivial: a binding with at least one field",
		assumes: []string{"protoc says what an annotation means"},
	}
}

// goType is the Go type protoc-gen-go uses for a field
var goScalar = map[descriptorpb.FieldDescriptorProto_Type]string{
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE: "float64", descriptorpb.FieldDescriptorProto_TYPE_FLOAT: "float32",
	descriptorpb.FieldDescriptorProto_TYPE_INT64: "int64", descriptorpb.FieldDescriptorProto_TYPE_UINT64: "uint64",
	descriptorpb.FieldDescriptorProto_TYPE_INT32: "int32", descriptorpb.FieldDescriptorProto_TYPE_FIXED64: "uint64",
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32: "uint32", descriptorpb.FieldDescriptorProto_TYPE_BOOL: "bool",
	descriptorpb.FieldDescriptorProto_TYPE_STRING: "string", descriptorpb.FieldDescriptorProto_TYPE_BYTES: "byte",
	descriptorpb.FieldDescriptorProto_TYPE_UINT32: "uint32", descriptorpb.FieldDescriptorProto_TYPE_SFIXED32: "int32",
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED64: "int64", descriptorpb.FieldDescriptorProto_TYPE_SINT32: "int32",
	descriptorpb.FieldDescriptorProto_TYPE_SINT64: "int64",
}

// goTypeName is the Go name of a message or enum of the package.
func goTypeName(pkg, full string) string {
	full = strings.TrimPrefix(full, ".")
	if pkg != "" {
		full = strings.TrimPrefix(full, pkg+".")
	}
	return goCamel(full)
}

// wantField describes a field the way describe does a derived one.
func wantField(pkg string, m *descriptorpb.DescriptorProto, f *descriptorpb.FieldDescriptorProto) string {
	rep := f.GetLabel() == descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	base := func(f *descriptorpb.FieldDescriptorProto) string {
		switch f.GetType() {
		case descriptorpb.FieldDescriptorProto_TYPE_MESSAGE:
			if strings.HasPrefix(f.GetTypeName(), ".google.protobuf.") {
				return "wkt " + shortName(f.GetTypeName())
			}
			return "message " + goTypeName(pkg, f.GetTypeName())
		case descriptorpb.FieldDescriptorProto_TYPE_ENUM:
			return "enum " + goTypeName(pkg, f.GetTypeName())
		}
		return goScalar[f.GetType()]
	}
	if rep && f.GetType() == descriptorpb.FieldDescriptorProto_TYPE_MESSAGE {
		for _, n := range m.NestedType {
			if n.GetOptions().GetMapEntry() && strings.HasSuffix(f.GetTypeName(), "."+m.GetName()+"."+n.GetName()) {
				// that a value is an enum is not derived
				val := base(n.Field[1])
				if !strings.HasPrefix(val, "message ") {
					val = val[strings.LastIndex(val, " ")+1:]
				}
				return "map " + base(n.Field[0]) + " " + val
			}
		}
	}
	s := base(f)
	if rep {
		s = "repeated " + s
	}
	// Go spells optional messages and bytes as it does others
	if f.GetProto3Optional() && f.GetType() != descriptorpb.FieldDescriptorProto_TYPE_MESSAGE && f.GetType() != descriptorpb.FieldDescriptorProto_TYPE_BYTES {
		s = "optional " + s
	}
	return s
}

func describe(t *dTyp) string {
	if t == nil {
		return "nothing"
	}
	if t.Key != nil || t.Val != nil {
		val := describe(t.Val)
		if val == "" {
			val = "byte" // the type of bytes values is not derived
		}
		if !strings.HasPrefix(val, "message ") || !t.Val.Star {
			val = val[strings.LastIndex(val, " ")+1:]
		}
		return "map " + describe(t.Key) + " " + val
	}
	s := strings.TrimPrefix(t.Name, "[]")
	if t.Message {
		s = "message " + t.MsgName
		if t.MsgName != t.Name {
			s += " named " + t.Name
		}
	}
	if t.Enum {
		s = "enum " + t.Name
	}
	if i := strings.Index(s, "pb."); i >= 0 {
		s = "wkt " + s[i+3:]
	}
	if t.Array && s != "byte" || t.Name == "[]byte" {
		s = "repeated " + s
	}
	if t.Star && !t.Message && !t.Array && !strings.HasPrefix(s, "wkt") {
		s = "optional " + s
	}
	return s
}

// defCase is a generated file with its derived definition and its descriptor
type defCase struct {
	file *File
	fd   *descriptorpb.FileDescriptorProto
	def  *dDef
	err  error
	str  string // how the definition of the file as a string differs
}

func (h *H) defCases(name string, n int, o genOpts) []defCase {
	r := h.Rand(name)
	files := make([]*File, n)
	for i := range files {
		files[i] = genFile(r, fmt.Sprintf("d%d", i), o)
	}
	return h.define(files)
}

// define compiles the files and has baron derive their definitions.
func (h *H) define(files []*File) []defCase {
	rv := make([]defCase, len(files))
	p := newPool(h.Worker(false), 8)
	defer p.Close()
	r := h.Rand("split")
	parts := make([][]*File, len(files))
	seeds := make([]int64, len(files))
	for i, f := range files {
		seeds[i] = r.Int63()
		if r.Intn(4) == 0 {
			f.Ext = 60000
			for _, p := range f.Svc.Rpcs {
				p.Ext, p.Other = true, 1+r.Intn(3)
			}
		}
		parts[i] = []*File{f}
		if r.Intn(4) == 0 {
			parts[i] = f.split(r, 2+r.Intn(2))
		}
	}
	const batch = 25
	parallel((len(files)+batch-1)/batch, func(k int) {
		root := filepath.Join(h.W, "def", h.Prop, fmt.Sprint(k))
		lo, hi := k*batch, min((k+1)*batch, len(files))
		// one run for each: the packages of a run must be one
		for i := lo; i < hi; i++ {
			dir := filepath.Join(root, filepath.Dir(files[i].Path))
			protos, goFiles, names := map[string]string{}, map[string]string{}, []string{}
			tr := rand.New(rand.NewSource(seeds[i]))
			for _, x := range parts[i] {
				name := filepath.Base(x.Path)
				protos[name] = x.Text()
				if tr.Intn(2) == 0 {
					protos[name] = x.tokens(tr).render(tr.Intn(numLayouts), tr)
				}
				names = append(names, name)
				write(filepath.Join(dir, name), protos[name])
			}
			set, err := h.protoc(dir, names...)
			must(err)
			args := append([]string{"-I" + dir, "-I" + filepath.Join(h.Verif, "rt", "googleapis"),
				"--go_out=paths=source_relative:.", "--go-grpc_out=paths=source_relative:."}, names...)
			res := command(dir, nil, "", "protoc", args...)
			if res.Code != 0 {
				panic("protoc: " + clip(res.Err, 1000))
			}
			fd := set[names[0]]
			for k, name := range names {
				base := filepath.Join(dir, strings.TrimSuffix(name, ".proto"))
				for _, suf := range []string{".pb.go", "_grpc.pb.go"} {
					if exists(base + suf) {
						goFiles[base+suf] = read(base + suf)
					}
				}
				if k > 0 {
					fd.MessageType = append(fd.MessageType, set[name].MessageType...)
					fd.EnumType = append(fd.EnumType, set[name].EnumType...)
				}
			}
			if len(names) > 1 {
				h.Count("definitions of several files", 1)
			}
			rv[i] = defCase{file: files[i], fd: fd}
			var rep dReply
			err = p.Call(map[string]interface{}{"Op": "define", "Go": goFiles, "Proto": protos}, &rep)
			if err != nil {
				rv[i].err = err
			} else if rep.Err != "" {
				rv[i].err = fmt.Errorf("%s", rep.Err)
			}
			rv[i].def = rep.Def
			if len(names) == 1 && i%16 == 0 {
				rv[i].str = h.fromString(p, filepath.Join(root, "str"), protos[names[0]], rep)
			}
		}
	})
	return rv
}

// fromString has baron derive the definition of a text and tells how it differs
// from the one derived of the files.
func (h *H) fromString(p *pool, dir, text string, want dReply) string {
	tmp, src := filepath.Join(dir, "tmp"), filepath.Join(dir, "gopath", "src")
	must(os.MkdirAll(tmp, 0o777))
	must(os.MkdirAll(src, 0o777))
	if link := filepath.Join(src, "google"); !exists(link) {
		must(os.Symlink(filepath.Join(h.Verif, "rt", "googleapis", "google"), link))
	}
	var rep dReply
	err := p.Call(map[string]interface{}{"Op": "fromstring", "Src": text, "Srcs": []string{filepath.Join(dir, "gopath")}, "Tmp": tmp}, &rep)
	h.Count("definitions derived of a string", 1)
	if err != nil {
		return err.Error()
	}
	if js(rep) != js(want) {
		return "derived of a string: " + clip(js(rep), 1500) + " derived of the files: " + clip(js(want), 1500)
	}
	if ents, _ := os.ReadDir(tmp); len(ents) > 0 {
		os.RemoveAll(tmp)
		return "temporary files are left"
	}
	return ""
}

var defOpts = genOpts{Rpcs: 5, NoHTTP: true, Tricky: true, Oneofs: true, Maps: true, Wkt: true, Nested: true, Optional: true, Streams: true, LowerRPC: true, Imported: true, DottedPkg: true, Overlap: true}

func runC04(h *H) {
	cases := h.defCases("files", h.N(1600, 12000), defOpts)
	for _, c := range cases {
		h.Eval(c.file.Text(), true)
		if c.err != nil {
			h.Violation("a valid definition is refused", map[string]interface{}{"file": c.file.Text(), "error": c.err.Error()})
			continue
		}
		if c.str != "" {
			h.Violation("the definition derived of a string differs", map[string]interface{}{"file": c.file.Text(), "difference": c.str})
		}
		want, got := wantDef(c.fd), gotDef(c.def)
		h.Count("facts compared", len(want))
		var bad []string
		for k, v := range want {
			if got[k] != v {
				bad = append(bad, fmt.Sprintf("%s: declared %q, derived %q", k, v, got[k]))
			}
		}
		for k, v := range got {
			if _, ok := want[k]; !ok {
				bad = append(bad, fmt.Sprintf("%s: not declared, derived %q", k, v))
			}
		}
		if len(bad) > 0 {
			sort.Strings(bad)
			h.Violation("the derived definition differs from the declared one: "+kindOf(bad[0]), map[string]interface{}{"file": c.file.Text(), "differences": bad})
			continue
		}
		h.Sample(clip(js(got), 500))
	}
}

var idRE = regexp.MustCompile(`[A-Z][A-Za-z0-9_.]*`)

func kindOf(s string) string { return clip(idRE.ReplaceAllString(s, "X"), 80) }

// wantDef lists the facts the descriptor states.
func wantDef(fd *descriptorpb.FileDescriptorProto) map[string]string {
	rv := map[string]string{}
	pkg := fd.GetPackage()
	var msg func(prefix string, m *descriptorpb.DescriptorProto)
	msg = func(prefix string, m *descriptorpb.DescriptorProto) {
		if m.GetOptions().GetMapEntry() {
			return
		}
		name := m.GetName()
		if prefix != "" {
			name = prefix + "." + name
		}
		gn := goCamel(name)
		rv["message "+gn] = "yes"
		goNames := fieldGoNames(m)
		for _, f := range m.Field {
			key := "field " + gn + "." + f.GetName()
			if f.OneofIndex != nil && !f.GetProto3Optional() {
				one := m.OneofDecl[f.GetOneofIndex()].GetName()
				rv["oneof "+gn+"."+goNames["oneof "+one]+"/"+f.GetName()] = "yes"
				key = "oneof field " + gn + "." + f.GetName()
			}
			rv[key] = wantField(pkg, m, f)
		}
		for _, n := range m.NestedType {
			msg(name, n)
		}
		for _, e := range m.EnumType {
			rv["enum "+goCamel(name+"."+e.GetName())] = "yes"
		}
	}
	for _, m := range fd.MessageType {
		msg("", m)
	}
	for _, e := range fd.EnumType {
		rv["enum "+goCamel(e.GetName())] = "yes"
	}
	for _, s := range fd.Service {
		rv["service"] = goCamel(s.GetName())
		for _, m := range s.Method {
			if m.GetClientStreaming() || m.GetServerStreaming() {
				continue
			}
			rv["rpc "+goCamel(m.GetName())] = rpcTypeName(pkg, m.GetInputType()) + " " + rpcTypeName(pkg, m.GetOutputType())
		}
	}
	return rv
}

// rpcTypeName is how the definition names the type of an rpc: without the
// package, also where it is another one.
func rpcTypeName(pkg, name string) string {
	if strings.HasPrefix(name, ".google.protobuf.") {
		return shortName(name)
	}
	return goTypeName(pkg, name)
}

func gotDef(d *dDef) map[string]string {
	rv := map[string]string{}
	put := func(k, v string) {
		if old, ok := rv[k]; ok {
			v = old + " and again " + v
		}
		rv[k] = v
	}
	for _, m := range d.Messages {
		if strings.HasPrefix(m.Name, "Unimplemented") {
			continue // the Go plugin's own
		}
		put("message "+m.Name, "yes")
		for _, f := range m.Fields {
			if len(f.Type.Oneof) > 0 {
				for _, o := range f.Type.Oneof {
					put("oneof "+m.Name+"."+f.Name+"/"+o.PB, "yes")
					put("oneof field "+m.Name+"."+o.PB, describeMember(o.Type))
				}
				continue
			}
			put("field "+m.Name+"."+f.PB, describe(f.Type))
		}
	}
	for _, e := range d.Enums {
		put("enum "+e, "yes")
	}
	put("service", d.Service)
	for _, m := range d.Methods {
		put("rpc "+m.Name, m.In+" "+m.Out)
		if rv["message "+m.In] != "" && !m.InMsg || rv["message "+m.Out] != "" && !m.OutMsg {
			put("rpc "+m.Name, "with a type which is not resolved")
		}
	}
	return rv
}

// describeMember describes the type of a member of a oneof: its message is the
// wrapper struct of the member.
func describeMember(t *dTyp) string {
	c := *t
	c.Message = false
	s := describe(&c)
	// a pointer is a message here: no member is optional
	return strings.Replace(s, "optional ", "message ", 1)
}

func runC05(h *H) {
	o := defOpts
	o.Dotted = true
	cases := h.defCases("files", h.N(1600, 12000), o)
	for _, c := range cases {
		if c.err != nil {
			continue // C04's
		}
		meth := map[string]dMethod{}
		for _, m := range c.def.Methods {
			meth[m.Name] = m
		}
		msgs := map[string]*descriptorpb.DescriptorProto{}
		for _, m := range c.fd.MessageType {
			msgs[m.GetName()] = m
		}
		for _, m := range c.fd.Service[0].Method {
			if m.GetClientStreaming() || m.GetServerStreaming() {
				continue
			}
			dm := meth[goCamel(m.GetName())]
			rules := httpRules(m)
			if len(rules) != len(dm.Bindings) {
				h.Eval(c.file.Path+m.GetName(), false)
				h.Violation("a binding is missing or made up", map[string]interface{}{"file": c.file.Text(), "rpc": m.GetName(), "declared": rules, "derived": dm.Bindings})
				continue
			}
			req := msgs[shortName(m.GetInputType())]
			left := append([]dBinding{}, dm.Bindings...)
			for _, rule := range rules {
				want := wantLocations(req, rule)
				h.Eval(c.file.Path+" "+js(rule)+want, want != "")
				h.Count("locations compared", strings.Count(want, "="))
				found := false
				for k, b := range left {
					if strings.EqualFold(b.Verb, rule.Verb) && b.Path == rule.Path {
						found = true
						if got := gotLocations(b); got != want {
							h.Violation("a field is looked for in another place than the annotation says", map[string]interface{}{
								"file": c.file.Text(), "rpc": m.GetName(), "binding": rule, "want": want, "got": got})
						} else {
							h.Sample(map[string]interface{}{"binding": rule, "locations": got})
						}
						left = append(left[:k], left[k+1:]...)
						break
					}
				}
				if !found {
					h.Violation("a declared binding is not derived", map[string]interface{}{"file": c.file.Text(), "rpc": m.GetName(), "declared": rule, "derived": dm.Bindings})
				}
			}
		}
	}
}

// wantLocations says where the annotation puts each field of the request.
func wantLocations(req *descriptorpb.DescriptorProto, b Binding) string {
	var rv []string
	inPath := map[string]bool{}
	for _, p := range regexp.MustCompile(`\{([^}=.]*)[^}]*\}`).FindAllStringSubmatch(b.Path, -1) {
		inPath[p[1]] = true
	}
	seen := map[string]bool{}
	goNames := fieldGoNames(req)
	for _, f := range req.Field {
		loc := "query"
		switch {
		case inPath[f.GetName()]:
			loc = "path"
		case b.Body == "*" || b.Body == f.GetName():
			loc = "body"
		}
		name := goNames[f.GetName()]
		if f.OneofIndex != nil && !f.GetProto3Optional() {
			// a oneof has one place
			name = goNames["oneof "+req.OneofDecl[f.GetOneofIndex()].GetName()]
			loc = "query"
			if b.Body == "*" {
				loc = "body"
			}
			if seen[name] {
				continue
			}
			seen[name] = true
		}
		rv = append(rv, name+"="+loc)
	}
	sort.Strings(rv)
	return strings.Join(rv, " ")
}

// fieldGoNames gives the Go names protoc-gen-go gives to the fields of a
// message and, by "oneof NAME", to its oneofs: it adds underscores to the names
// which methods of the message have.
func fieldGoNames(m *descriptorpb.DescriptorProto) map[string]string {
	used := map[string]bool{"Reset": true, "String": true, "ProtoMessage": true, "Marshal": true, "Unmarshal": true,
		"ExtensionRangeArray": true, "ExtensionMap": true, "Descriptor": true}
	unique := func(name string, getter bool) string {
		for used[name] || getter && used["Get"+name] {
			name += "_"
		}
		used[name] = true
		used["Get"+name] = getter
		return name
	}
	rv := map[string]string{}
	for _, f := range m.Field {
		rv[f.GetName()] = unique(goCamel(f.GetName()), true)
		if f.OneofIndex != nil {
			one := m.OneofDecl[f.GetOneofIndex()].GetName()
			if _, ok := rv["oneof "+one]; !ok {
				rv["oneof "+one] = unique(goCamel(one), false)
			}
		}
	}
	return rv
}

func gotLocations(b dBinding) string {
	var rv []string
	for _, p := range b.Params {
		rv = append(rv, p.Field+"="+p.Location)
	}
	sort.Strings(rv)
	return strings.Join(rv, " ")
}
