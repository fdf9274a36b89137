package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	checks["C06"] = checkDef{
		run:     runC06,
		rule:    "a generated service with one choice of transports, client and place, on which the real tool is run and everything it wrote is compiled with the Go compiler; non-trivial: every service",
		assumes: []string{"go-kit, gorilla/mux and nats.go, which are not in the sandbox, are stood in for by packages of the same API (/verif/rt/stubs); gRPC and protobuf are the real ones"},
	}
}

var transports = []string{"all", "grpc", "nats"}

// genConf is how baron is run on a file
type genConf struct {
	transport string
	client    bool
	sub       bool    // run in the directory of the .proto file
	svcout    string  // --svcout, or none
	more      []*File // files of the definition beside the service's
	seed      int64   // of the layout
	shared    *File   // of another package, which the definition imports
	again     bool    // name the file of the service twice, in two ways
}

func (c genConf) args(f *File) []string {
	var a []string
	if c.transport != "" {
		a = append(a, "--transport", c.transport)
	}
	if c.client {
		a = append(a, "-c")
	}
	if c.svcout != "" {
		a = append(a, "--svcout", c.svcout)
	}
	for _, x := range append([]*File{f}, c.more...) {
		if c.sub {
			a = append(a, filepath.Base(x.Path))
		} else {
			a = append(a, x.Path)
		}
	}
	if c.again {
		n := a[len(a)-1-len(c.more)]
		a = append(a, filepath.Dir(n)+"/./"+filepath.Base(n))
	}
	return a
}

func (c genConf) dir(f *File) string {
	if c.sub {
		return filepath.Dir(f.Path)
	}
	return ""
}

// foreign adds messages and an enum of another Go package to f.
func (f *File) foreign(r *rand.Rand) *File {
	pkg := f.Svc.Name + "shared"
	dir := filepath.Dir(f.Path)
	x := &File{Path: dir + "/shared/types.proto", Pkg: strings.ToLower(pkg), GoPkg: "scratch/" + dir + "/shared"}
	x.Enums = []*Enum{{Name: "SharedKind", Values: []string{"SHARED_NONE", "SHARED_SOME"}}}
	x.Msgs = []*Msg{{Name: "SharedMeta", Fields: []*Field{{Name: "key", Type: "string", Kind: "string", Num: 1}, {Name: "kind", Type: "SharedKind", Kind: "enum", Num: 2}}},
		{Name: "SharedNone"}}
	f.Imps = append(f.Imps, "shared/types.proto")
	for _, p := range f.Svc.Rpcs {
		if r.Intn(3) == 0 {
			p.Out = x.Pkg + "." + pick(r, x.Msgs).Name
		}
		if len(p.HTTP) == 0 && r.Intn(2) == 0 {
			p.In = x.Pkg + "." + pick(r, x.Msgs).Name
		}
	}
	// outside of requests, whose fields may be in the query
	for _, m := range f.Msgs {
		if !strings.HasSuffix(m.Name, "Reply") || r.Intn(2) == 0 {
			continue
		}
		for i, typ := range []string{"SharedMeta", "SharedKind"} {
			fl := &Field{Name: fmt.Sprintf("zz_shared_%d", i), Type: x.Pkg + "." + typ, Kind: "message", Num: 100 + i}
			fl.Label = pick(r, []string{"", "repeated", "optional"})
			m.Fields = append(m.Fields, fl)
		}
	}
	return x
}

// place gives f names, of its directory and of itself, and a Go package, of
// all the forms there are.
func (f *File) place(r *rand.Rand, i int) {
	dir := fmt.Sprintf("c%d", i)
	switch r.Intn(8) {
	case 0:
		dir = fmt.Sprintf("c%d-api", i)
	case 1:
		dir = fmt.Sprintf("c%d.v1", i)
	case 2:
		dir = fmt.Sprintf("c%d/api/v1", i)
	case 3:
		dir = fmt.Sprintf("C%d_Api", i)
	}
	base := fmt.Sprintf("c%d", i)
	switch r.Intn(10) {
	case 0:
		base = "x-y"
	case 1:
		base = "x.v1"
	case 2:
		base = "Upper"
	case 3:
		base = "with space"
	case 4:
		base = "proto"
	case 5:
		base = "service"
	}
	f.Path = dir + "/" + base + ".proto"
	f.GoPkg = "scratch/" + dir
	switch r.Intn(8) {
	case 0, 1:
		f.GoPkg += ";" + pick(r, []string{"v1", "pb", "http", "context", "endpoint", "service", "svc", "proto", "server", "grpc", "nats", "json", "other", "Upper", "x_y"})
	case 2:
		f.GoPkg = "github.com/else/where"
	case 3:
		f.GoPkg = "example.com/a/" + pick(r, []string{"v2", "go-api", "api.v1", "type"})
	}
}

func runC06(h *H) {
	var files []*File
	var confs []genConf
	r := h.Rand("services")
	n := h.N(96, 600)
	o := defOpts
	o.Streams, o.Overlap = false, true
	for i := 0; i < n; i++ {
		f := genFile(r, fmt.Sprintf("c%d", i), o)
		// services of one directory need names of their own
		f.number(i)
		c := genConf{transport: transports[i%3], client: r.Intn(2) == 0, sub: r.Intn(3) == 0}
		f.place(r, i)
		if i%7 == 0 {
			c.transport = ""
		}
		if r.Intn(4) == 0 {
			c.shared = f.foreign(r)
		}
		if r.Intn(4) == 0 {
			fs := f.split(r, 2+r.Intn(2))
			f, c.more = fs[0], fs[1:]
		}
		if r.Intn(4) == 0 {
			f.Ext = 60000
			for _, p := range f.Svc.Rpcs {
				p.Ext, p.Other = true, 1+r.Intn(3)
			}
		}
		c.seed = r.Int63()
		files, confs = append(files, f), append(confs, c)
	}
	for i, l := range compileListed {
		f := &File{Path: fmt.Sprintf("l%d/l%d.proto", i, i), Svc: &Svc{Name: fmt.Sprintf("L%d", i)}}
		f.Pkg = l // the text
		files = append(files, f)
		confs = append(confs, genConf{transport: transports[i%3], client: i%2 == 0})
	}
	w := h.newWS()
	defer w.Close()
	failed := make([]bool, len(files))
	parallel(len(files), func(i int) {
		f, c := files[i], confs[i]
		text := ""
		if i < n {
			text = f.Text()
			if tr := rand.New(rand.NewSource(c.seed)); tr.Intn(2) == 0 {
				text = f.tokens(tr).render(tr.Intn(numLayouts), tr)
			}
			for _, x := range c.more {
				w.Write(x.Path, x.Text())
			}
			if x := c.shared; x != nil {
				w.Write(x.Path, x.Text())
				dir := filepath.Join(w.Dir, filepath.Dir(filepath.Dir(x.Path)))
				rel := filepath.Join("shared", filepath.Base(x.Path))
				if res := command(dir, nil, "", "protoc", "-I"+dir, "--go_out=paths=source_relative:.", rel); res.Code != 0 {
					h.fatal("protoc refuses a shared file: %s%s", res.Out, res.Err)
				}
				w.own(filepath.Join(dir, "shared"))
				h.Count("definitions with types of another package", 1)
			}
		} else {
			name := fmt.Sprintf("l%d", i-n)
			text = "syntax = \"proto3\";\npackage " + name + ";\noption go_package = \"scratch/" + name + "\";\nimport \"google/api/annotations.proto\";\n" +
				strings.Replace(strings.Replace(f.Pkg, "SVC", f.Svc.Name, -1), "PKG", name, -1)
		}
		w.Write(f.Path, text)
		res := w.Baron(c.dir(f), c.args(f)...)
		h.Eval(text+js(c.args(f)), true)
		if res.Code != 0 {
			failed[i] = true
			h.Violation("a valid definition is refused", map[string]interface{}{"file": text, "args": c.args(f), "output": tail(res.Out+res.Err, 1500)})
			return
		}
		svcDir := filepath.Join(c.dir(f), f.lower()+"-service")
		if !w.Exists(svcDir) {
			failed[i] = true
			h.Violation("no service is written", map[string]interface{}{"file": text, "args": c.args(f), "output": tail(res.Out+res.Err, 1500)})
		}
		if i < 3 {
			h.Sample(map[string]interface{}{"args": c.args(f), "file": clip(text, 500)})
		}
	})
	res := w.Go("build", "-o", filepath.Join(w.Tmp, "bin")+"/", "./...")
	h.probeClashes()
	if res.Code == 0 {
		h.Count("packages compiled", strings.Count(w.Go("list", "./...").Out, "\n"))
		return
	}
	// attribute what does not compile to its service
	bad := map[string][]string{}
	for _, line := range strings.Split(res.Err, "\n") {
		if m := regexp.MustCompile(`^([^\s:]+)/[^/]+\.go:\d+`).FindStringSubmatch(line); m != nil {
			bad[m[1]] = append(bad[m[1]], line)
		}
	}
	var dirs []string
	for d := range bad {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	if len(dirs) == 0 {
		h.Violation("the generated code does not compile", clip(res.Err, 3000))
	}
	for _, d := range dirs {
		text := ""
		var args []string
		for i, f := range files {
			if strings.HasPrefix(d, filepath.Dir(f.Path)+"/") || d == filepath.Dir(f.Path) || strings.HasPrefix(d, f.lower()+"-service") {
				text, args = w.Read(f.Path), confs[i].args(f)
			}
		}
		h.Violation("the generated code does not compile: "+kindOf(bad[d][0][strings.LastIndex(bad[d][0], ": ")+2:]), map[string]interface{}{"errors": bad[d], "file": text, "args": args})
	}
}

// Legal definitions with the names which the generated package gives to things
// of its own, and what the compiler says of them: known findings.
var clashes = []struct{ id, def, says string }{
	{"message-endpoints", "message Endpoints { string s = 1; } service SVC { rpc A(Endpoints) returns (Endpoints); }", "Endpoints redeclared"},
	{"message-labeled-middleware", "message LabeledMiddleware { string s = 1; } service SVC { rpc A(LabeledMiddleware) returns (LabeledMiddleware); }", "LabeledMiddleware redeclared"},
	{"rpc-x-endpoint", "message M { string s = 1; } service SVC { rpc X(M) returns (M); rpc XEndpoint(M) returns (M); }", "field and method with the same name XEndpoint"},
	{"rpc-wrap-all-except", "message M { string s = 1; } service SVC { rpc WrapAllExcept(M) returns (M); }", "Endpoints.WrapAllExcept already declared"},
}

func (h *H) probeClashes() {
	w := h.newWS()
	defer w.Close()
	parallel(len(clashes), func(i int) {
		c := clashes[i]
		d, svc := fmt.Sprintf("k%d", i), fmt.Sprintf("K%d", i)
		w.Write(d+"/k.proto", "syntax = \"proto3\";\npackage "+d+";\noption go_package = \"scratch/"+d+"\";\n"+strings.Replace(c.def, "SVC", svc, -1)+"\n")
		res := w.Baron("", d+"/k.proto")
		if res.Code != 0 {
			h.Violation("a valid definition is refused", map[string]interface{}{"file": c.def, "output": tail(res.Out+res.Err, 1500)})
			return
		}
		out := w.Go("build", "./"+d+"/...", "./"+d+"-service/...")
		h.Eval(c.id, true)
		switch {
		case out.Code == 0:
		case strings.Contains(out.Err, c.says):
			h.Known(c.id, c.def)
		default:
			h.Violation("the generated code does not compile: "+c.id, map[string]interface{}{"errors": clip(out.Err, 2000), "file": c.def})
		}
	})
}

// SVC is replaced by a name of the service
var compileListed = []string{
	"message M { string a = 1; } service SVC { }",
	"message M { string a = 1; } service SVC { rpc Select(M) returns (M); rpc Range(M) returns (M); rpc Type(M) returns (M); rpc Import(M) returns (M); rpc Func(M) returns (M); rpc Go(M) returns (M); }",
	"message M { string a = 1; optional int32 b = 2; optional E e = 3; oneof o { string c = 4; E d = 5; M m = 6; bytes by = 7; } } enum E { Z = 0; } service SVC { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a/{a}/{b}\" }; } }",
	"message String { string string = 1; string reset = 2; string descriptor = 3; } service SVC { rpc A(String) returns (String) { option (google.api.http) = { get: \"/a/{string}\" additional_bindings { post: \"/b\" body: \"reset\" } }; } }",
	"message M { repeated string a = 1; repeated int32 b = 2; repeated bool c = 3; repeated double d = 4; repeated E e = 5; repeated M f = 6; repeated bytes g = 7; bytes h = 8; map<string, M> i = 9; } enum E { Z = 0; } service SVC { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a\" }; } rpc B(M) returns (M) { option (google.api.http) = { post: \"/b\" body: \"*\" }; } }",
	"message A { string s = 1; } message B { oneof o { string x = 1; } } message C { oneof o { int32 x = 1; int32 y = 2; } } service SVC { rpc P(B) returns (A) { option (google.api.http) = { get: \"/p\" }; } rpc Q(C) returns (A) { option (google.api.http) = { get: \"/q\" }; } }",
	"message M { message N { string a = 1; enum F { Z = 0; } F f = 2; } N n = 1; N.F f = 2; repeated N.F fs = 3; repeated N ns = 4; } service SVC { rpc A(M.N) returns (M) { option (google.api.http) = { get: \"/a/{a}\" }; } rpc B(M) returns (M.N) { option (google.api.http) = { get: \"/b\" }; } }",
	"message M { string a = 1; } service SVC { rpc A(M) returns (M) { option (google.api.http) = { custom { kind: \"HEAD\" path: \"/a/{a}\" } }; } rpc B(M) returns (M) { option (google.api.http) = { delete: \"/b/{a}\" }; } rpc S(stream M) returns (stream M); rpc T(M) returns (stream M); }",
	"message M { string req = 1; string r = 2; string u = 3; string err = 4; string buf = 5; string values = 6; string tmp = 7; string strval = 8; string path = 9; string query_params = 10; string path_params = 11; string w = 12; string ok = 13; int32 data = 14; } service SVC { rpc A(M) returns (M) { option (google.api.http) = { get: \"/a/{req}/{r}/{u}/{data}\" }; } }",
	"message Foo { string a = 1; } message SVCx { string b = 1; } service SVC { rpc Foo(.PKG.Foo) returns (SVCx) { option (google.api.http) = { get: \"/\" }; } rpc SVC(SVCx) returns (.PKG.Foo) { option (google.api.http) = { post: \"/x\" body: \"*\" }; } }",
	"message Server { string a = 1 [json_name = \"theA\"]; int32 b = 2 [json_name = \"theB\", deprecated = true]; repeated int32 c = 3 [packed = false]; reserved 7, 9 to 11; reserved \"old\"; } message Client { } message Middleware { } message Service { } message Config { } message Context { } message Request { } service SVC { rpc Server(.PKG.Server) returns (.PKG.Client) { option (google.api.http) = { get: \"/s/{a}\" }; } rpc Client(.PKG.Server) returns (.PKG.Middleware); rpc Middleware(Service) returns (Config); rpc Close(Context) returns (Request); }",
	"message M { string a = 1; message Deep { message Deeper { enum E { Z = 0; } string s = 1; } Deeper d = 1; } Deep.Deeper.E e = 2; } service SVC { rpc A(M.Deep.Deeper) returns (M.Deep) { option (google.api.http) = { get: \"/a\" }; } rpc B(M) returns (M.Deep.Deeper) { option (google.api.http) = { get: \"/b/{e}\" additional_bindings { get: \"/b/{a}/x\" } }; } }",
	"option java_package = \"com.x\"; option (extra) = \"y\"; import \"google/protobuf/descriptor.proto\"; extend google.protobuf.FileOptions { string extra = 50001; } extend google.protobuf.MethodOptions { string note = 50002; Opts opts = 50003; } message Opts { string a = 1; repeated int32 b = 2; } message M { option deprecated = true; string a = 1; } service SVC { option deprecated = true; rpc A(M) returns (M) { option (note) = \"rpc X(Y) returns (Z) { }\"; option (google.api.http) = { get: \"/a\" }; option (opts) = { a: \"}\" b: [1, 2] }; } rpc B(M) returns (M) { option (opts).a = \"x\"; option (google.api.http) = { get: \"/b\" }; } }",
	"message a { string b = 1; } message b_c { a a = 1; } enum kind { none = 0; } service SVC { rpc a(.PKG.a) returns (b_c) { option (google.api.http) = { get: \"/a/{b}\" }; } rpc do_it(b_c) returns (.PKG.a); }",
	"message M { string a = 1; } service SVC { rpc A(.PKG.M) returns (.PKG.M) { option (google.api.http) = { get: \"/a\" }; } rpc B(PKG.M) returns (M); }",
	"message Request { int64 id = 1; } message Response { } service SVC { rpc Endpoints(Request) returns (Response); rpc NewService(Request) returns (Response); rpc Context(Request) returns (Response); rpc String(Request) returns (Response); }",
}
