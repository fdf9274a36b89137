package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	checks["C24"] = checkDef{run: runC24,
		rule:    "one run of the tool with a choice of options, arguments and definitions; its exit status, what it says and the files it leaves are compared with what the options ask for. Non-trivial: every distinct command line and definition",
		assumes: []string{"the options --transport all, grpc and nats; other values are not judged"}}
}

// cliGo tells what a generated Go file defines and imports.
func cliGo(path string) (funcs, imports map[string]bool, err error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return nil, nil, err
	}
	funcs, imports = map[string]bool{}, map[string]bool{}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
			funcs[fd.Name.Name] = true
		}
	}
	for _, i := range f.Imports {
		imports[strings.Trim(i.Path.Value, `"`)] = true
	}
	return
}

type cliCase struct {
	h  *H
	r  *rand.Rand
	i  int
	w  *WS
	f  *File
	fs []*File
}

func (c *cliCase) eval(args []string, what string) {
	c.h.Eval(fmt.Sprint(c.i)+js(args)+what, true)
	c.h.Count(what, 1)
}

// says reports whether any of the words is said.
func says(res result, words ...string) bool {
	out := strings.ToLower(res.Out + res.Err)
	for _, w := range words {
		if strings.Contains(out, strings.ToLower(w)) {
			return true
		}
	}
	return false
}

// run runs the tool in a directory and tells what it changed.
func (c *cliCase) run(what, sub string, args ...string) (result, []string) {
	before := state(c.w.Dir)
	res := c.w.Baron(sub, args...)
	c.eval(args, what)
	diff := diffSnap(before, state(c.w.Dir))
	if ents, _ := os.ReadDir(c.w.Tmp); len(ents) > 0 {
		c.fail(what+": temporary files are left", args, res, diff)
		os.RemoveAll(filepath.Join(c.w.Tmp, ents[0].Name()))
	}
	if res.Hung || res.Signal != "" || strings.Contains(res.Err, "goroutine ") {
		c.fail(what+": the tool crashes or hangs", args, res, diff)
	}
	return res, diff
}

func (c *cliCase) fail(key string, args []string, res result, diff []string) {
	c.h.Violation(key, map[string]interface{}{"args": args, "exit": res.Code, "output": tail(res.Out+res.Err, 1500), "changed": diff, "definition": clip(all(c.fs), 3000)})
}

// refused: the tool fails, says why, and changes nothing but what ok allows.
func (c *cliCase) refused(what string, ok func(path string) bool, sub string, args ...string) result {
	res, diff := c.run(what, sub, args...)
	if res.Code == 0 {
		c.fail(what+": is not an error", args, res, diff)
	}
	if strings.TrimSpace(res.Out+res.Err) == "" {
		c.fail(what+": no message", args, res, diff)
	}
	for _, d := range diff {
		if ok == nil || !ok(d[1:]) {
			c.fail(what+": files are changed", args, res, diff)
			break
		}
	}
	return res
}

// snap is what the tool wrote for the case
func (c *cliCase) snap() map[string]string {
	rv := map[string]string{}
	for p, t := range state(c.w.Dir) {
		if strings.HasSuffix(p, ".go") {
			rv[p] = t
		}
	}
	return rv
}

func (c *cliCase) clean() {
	os.RemoveAll(filepath.Join(c.w.Dir, c.f.lower()+"-service"))
	ents, _ := os.ReadDir(filepath.Join(c.w.Dir, filepath.Dir(c.f.Path)))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			os.Remove(filepath.Join(c.w.Dir, filepath.Dir(c.f.Path), e.Name()))
		}
	}
}

func runC24(h *H) {
	n := h.N(30, 200)
	r := h.Rand("files")
	o := defOpts
	o.Streams = false
	var cs []*cliCase
	for i := 0; i < n; i++ {
		c := &cliCase{h: h, i: i, f: genFile(r, fmt.Sprintf("c%d", i), o), r: rand.New(rand.NewSource(r.Int63()))}
		c.f.number(i)
		c.fs = []*File{c.f}
		if i%3 > 0 {
			c.fs = c.f.split(c.r, 1+i%3)
			c.f = c.fs[0]
		}
		cs = append(cs, c)
	}
	parallel(len(cs), func(i int) { cs[i].cli() })
}

func (c *cliCase) cli() {
	c.w = c.h.newWS()
	defer c.w.Close()
	h, w, f := c.h, c.w, c.f
	var paths []string
	for _, x := range c.fs {
		w.Write(x.Path, x.Text())
		paths = append(paths, x.Path)
	}
	dir := filepath.Dir(f.Path)
	with := func(flags ...string) []string {
		if c.r.Intn(2) == 0 {
			return append(append([]string{}, flags...), paths...)
		}
		return append(append([]string{}, paths...), flags...)
	}
	nothing := func(what, sub string, code int, args []string, words ...string) {
		res, diff := c.run(what, sub, args...)
		if res.Code != code {
			c.fail(fmt.Sprintf("%s: exit status is not %d", what, code), args, res, diff)
		}
		if len(diff) > 0 {
			c.fail(what+": files are changed", args, res, diff)
		}
		for _, x := range words {
			if !says(res, x) {
				c.fail(what+": does not say "+x, args, res, diff)
			}
		}
	}
	// 1. runs which only say something
	opts := []string{"--svcout", "--verbose", "--start", "--client", "--transport", "--svcdef", "--debug", "--version", "--help"}
	nothing("help", "", 0, pick(c.r, [][]string{{"-h"}, {"--help"}, with("-h"), with("--help", "-c"), {"-V", "-h"}}), append([]string{"usage"}, opts...)...)
	nothing("version", "", 0, pick(c.r, [][]string{{"-V"}, {"--version"}, with("-V"), with("--version", "-c"), {"-s", "-V"}}), "verif-version", "verif-date")
	nothing("no definition", pick(c.r, []string{"", dir}), 1, pick(c.r, [][]string{{}, {"-c"}, {"--transport", "grpc"}, {"-v"}, {"--svcout", "./x"}}), ".proto", "usage")
	c.refused("an unknown option", nil, "", with(pick(c.r, []string{"--verif", "-x", "--clients", "--transprot=all"}))...)
	c.refused("an option without its value", nil, "", append(paths[:len(paths):len(paths)], pick(c.r, []string{"-o", "-t", "--transport", "--svcout"}))...)

	// 2. definitions which are not there or cannot be used together
	c.refused("a definition which does not exist", nil, "", filepath.Join(dir, "none.proto"))
	c.refused("a definition which does not exist beside one which does", isPB, "", f.Path, filepath.Join(dir, "none.proto"))
	c.refused("a directory which does not exist", nil, "", "none/none.proto")
	c.refused("a directory in place of a definition", nil, "", dir)
	// beside it, below it, above it, and of the same name
	for _, d := range []string{fmt.Sprintf("other%d", c.i), dir + "/sub", ".", dir + "x", "far/" + dir, dir + "/" + dir} {
		o := filepath.Join(d, "o.proto")
		w.Write(o, "syntax = \"proto3\";\npackage o;\noption go_package = \"scratch/o\";\nmessage O { string a = 1; }\n")
		args := append(paths[:len(paths):len(paths)], o)
		if c.r.Intn(2) == 0 {
			args = append([]string{o}, paths...)
		}
		sub := ""
		if c.r.Intn(3) == 0 {
			sub = dir
			for i := range args {
				args[i], _ = filepath.Rel(dir, args[i])
			}
		}
		if res := c.refused("definitions of different directories", nil, sub, args...); !says(res, "director") {
			c.fail("definitions of different directories: does not say so", args, res, nil)
		}
		os.Remove(filepath.Join(w.Dir, o))
		for d != "." && d != dir {
			os.Remove(filepath.Join(w.Dir, d))
			d = filepath.Dir(d)
		}
	}
	if len(c.fs) > 1 && !c.alone() {
		// the types of the service are in a file which is not given
		res, _ := c.run("a file of the definition is not given", "", f.Path)
		if res.Code != 0 && strings.TrimSpace(res.Out+res.Err) == "" {
			c.fail("a file of the definition is not given: no message", []string{f.Path}, res, nil)
		}
		os.RemoveAll(filepath.Join(w.Dir, f.lower()+"-service"))
	}
	c.clean()
	// one protoc refuses: what it says, and where, is handed on
	good := f.Text()
	line := 2 + strings.Count(good, "\n")
	word := pick(c.r, []string{"Nonesuch", "NoSuchType", "Lost.Inside"})
	w.Write(f.Path, good+"\n"+fmt.Sprintf("message BadC%d { %s a = 1; }\n", c.i, word))
	bad := with(pick(c.r, [][]string{nil, {"-c"}, {"-v"}})...)
	if res := c.refused("a definition protoc refuses", nil, "", bad...); !says(res, word) || !says(res, fmt.Sprintf("%s:%d:", filepath.Base(f.Path), line)) {
		c.fail("a definition protoc refuses: does not say what protoc says", bad, res, nil)
	}
	w.Write(f.Path, good)
	c.clean()

	// 3. no service, and more than one
	pk := fmt.Sprintf("n%d", c.i)
	msgs := *f
	msgs.Path, msgs.Pkg, msgs.GoPkg = pk+"/"+pk+".proto", pk, "scratch/"+pk
	msgs.Svc = nil
	msgs.Imps = nil
	for _, i := range f.Imps {
		if strings.HasPrefix(i, "google/") {
			msgs.Imps = append(msgs.Imps, i)
		}
	}
	if len(c.fs) > 1 {
		msgs.Enums, msgs.Msgs = c.fs[1].Enums, c.fs[1].Msgs
		msgs.Imps = c.fs[1].Imps
	}
	pre := pick(c.r, []string{"", "// service Foo { }\n", "/* service Foo {\n rpc A (B) returns (C); } */\n"})
	w.Write(msgs.Path, pre+msgs.Text())
	res, diff := c.run("no service", "", msgs.Path)
	if res.Code != 0 || !says(res, "service") {
		c.fail("a definition without a service: does not end well with a message", []string{msgs.Path}, res, diff)
	}
	for _, d := range diff {
		if d != "+"+pk+"/"+pk+".pb.go" {
			c.fail("a definition without a service: files are changed", []string{msgs.Path}, res, diff)
		}
	}
	if !w.Exists(pk + "/" + pk + ".pb.go") {
		c.fail("a definition without a service: no .pb.go", []string{msgs.Path}, res, diff)
	}
	c.twoServices()

	// 4. options which change nothing but what is said
	base := []string{}
	transport := transports[c.i%3]
	client := c.r.Intn(2) == 0
	if transport != "all" || c.r.Intn(2) == 0 {
		base = append(base, pick(c.r, [][]string{{"--transport", transport}, {"-t", transport}, {"--transport=" + transport}, {"-t" + transport}})...)
	}
	if client {
		base = append(base, pick(c.r, []string{"-c", "--client"}))
	}
	plain, diff := c.run("plain", "", with(base...)...)
	if plain.Code != 0 {
		c.fail("a valid definition is refused", with(base...), plain, diff)
		return
	}
	first := c.snap()
	for _, p := range diff {
		if p[0] == '-' {
			c.fail("a file is removed", with(base...), plain, diff)
		}
	}
	for _, flag := range []string{"-v", "--debug", "-d", pick(c.r, []string{"--verbose", "--svcdef", "-dv", "-vd"})} {
		c.clean()
		args := with(append(append([]string{}, base...), flag)...)
		res, _ := c.run("only tells more", "", args...)
		if res.Code != 0 {
			c.fail(flag+" makes a run fail", args, res, nil)
			continue
		}
		if d := diffSnap(first, c.snap()); len(d) > 0 {
			c.fail(flag+" changes what is generated", args, res, d)
		}
		if flag == "-d" {
			miss := ""
			if !strings.Contains(res.Out, `"`+goCamel(f.Svc.Name)+`"`) {
				miss = f.Svc.Name
			}
			for _, p := range f.Svc.Rpcs {
				if !strings.Contains(res.Out, `"`+goCamel(p.Name)+`"`) && !strings.Contains(res.Out, `"`+p.Name+`"`) {
					miss = p.Name
				}
			}
			if miss != "" {
				c.fail("-d does not show the service", args, res, []string{miss})
			}
		}
		if flag == "-v" && len(res.Out)+len(res.Err) <= len(plain.Out)+len(plain.Err) {
			c.fail("-v tells no more", args, res, nil)
		}
	}

	// 5. what the options choose
	svcDir := filepath.Join(w.Dir, f.lower()+"-service")
	if got := exists(filepath.Join(svcDir, "cmd", f.lower()+"-client", "main.go")); got != client {
		c.fail(fmt.Sprintf("client program: written is %v, asked for is %v", got, client), base, plain, nil)
	}
	baronGo := filepath.Join(w.Dir, strings.TrimSuffix(f.Path, ".proto")+".pb.baron.go")
	funcs, imports, err := cliGo(baronGo)
	if err != nil {
		c.fail("the generated code cannot be parsed", base, plain, []string{err.Error()})
		return
	}
	_, simports, err := cliGo(filepath.Join(svcDir, "server", "server.go"))
	if err != nil {
		c.fail("the generated server cannot be parsed", base, plain, []string{err.Error()})
		return
	}
	want := map[string]bool{"MakeHTTPHandler": true, "NewHTTPClient": true,
		"MakeGRPCServer": transport != "nats", "NewGRPCClient": transport != "nats",
		"MakeNATSHandler": transport != "grpc", "NewNATSClient": transport != "grpc"}
	for name, is := range want {
		got := funcs[name]
		if name == "MakeNATSHandler" {
			got = false
			for fn := range funcs {
				if strings.HasPrefix(fn, "MakeNATS") {
					got = true
				}
			}
		}
		if got != is {
			var l []string
			for x := range funcs {
				l = append(l, x)
			}
			sort.Strings(l)
			c.fail(fmt.Sprintf("--transport %s: %s is there: %v", transport, name, got), base, plain, l)
		}
	}
	for _, im := range []map[string]bool{imports, simports} {
		var has [2]bool
		for p := range im {
			has[0] = has[0] || strings.HasPrefix(p, "google.golang.org/grpc") && p != "google.golang.org/grpc/metadata"
			has[1] = has[1] || strings.Contains(p, "nats") && !strings.HasPrefix(p, "scratch/")
		}
		if has[1] && transport == "grpc" {
			c.fail("--transport grpc needs NATS", base, plain, nil)
		}
		_ = has[0]
	}
	h.Count("choices of transports compared", 1)

	// 6. where it goes: the same files, whatever the place
	c.placed(base, first)
	c.outside(base)
}

// alone reports whether the service's own file has all types the service needs.
func (c *cliCase) alone() bool { return len(c.fs[1].Enums)+len(c.fs[1].Msgs) == 0 && len(c.fs) < 3 }

// twoServices: a definition of more than one service is refused.
func (c *cliCase) twoServices() {
	k := c.r.Intn(4)
	pk := fmt.Sprintf("t%d", c.i)
	head := func(imp string) string {
		return "syntax = \"proto3\";\npackage " + pk + ";\noption go_package = \"scratch/" + pk + "\";\nimport \"google/api/annotations.proto\";\n" + imp
	}
	msg := "message M { string a = 1; }\n"
	svc := func(name, rpc, path string) string {
		opt := ";"
		if path != "" {
			opt = fmt.Sprintf(" { option (google.api.http) = { get: \"%s\" }; }", path)
		}
		return fmt.Sprintf("service %s { rpc %s(M) returns (M)%s }\n", name, rpc, opt)
	}
	path := func(s string) string { return pick(c.r, []string{"", s}) }
	a, b := svc("Alpha"+pk, "Get", path("/a")), svc("Beta"+pk, pick(c.r, []string{"Get", "Other"}), path("/b"))
	args := []string{pk + "/a.proto"}
	texts := map[string]string{}
	switch k {
	case 0:
		texts["a"] = head("") + msg + a + b
	case 1:
		texts["a"] = head("") + a + msg + b
	case 2:
		texts["a"] = head("") + msg + a
		texts["b"] = head("import \"a.proto\";\n") + b
		args = append(args, pk+"/b.proto")
	case 3:
		texts["a"] = head("") + msg + a
		texts["b"] = head("import \"a.proto\";\n") + b
		args = append([]string{pk + "/b.proto"}, args...)
	}
	was := c.fs
	defer func() { c.fs = was }()
	for n, t := range texts {
		c.w.Write(pk+"/"+n+".proto", t)
	}
	c.fs = nil
	ok := func(p string) bool {
		return strings.HasPrefix(p, pk+"/") && isPB(p)
	}
	res, diff := c.run("two services", "", args...)
	// an error comes after protoc; the directory of the service may have been made
	if res.Code == 0 || strings.TrimSpace(res.Out+res.Err) == "" {
		c.h.Violation("a definition of two services is not refused", map[string]interface{}{"files": texts, "args": args, "exit": res.Code, "output": tail(res.Out+res.Err, 1500), "changed": diff})
	}
	for _, d := range diff {
		if strings.HasSuffix(d, ".go") && !ok(d[1:]) {
			c.h.Violation("something is generated from a definition of two services", map[string]interface{}{"files": texts, "args": args, "changed": diff})
			break
		}
	}
}

// outside runs the tool for services and definitions no code of the module
// could import: it fails, and what it leaves are directories and protoc's files.
func (c *cliCase) outside(base []string) {
	w := c.w
	own := filepath.Join(w.Dir, "apart")
	apart := func() { w.Write("apart/go.mod", "module example.com/apart\n\ngo 1.13\n") }
	apart()
	ok := func(p string) bool {
		return isPB(p) || !strings.HasSuffix(p, ".go")
	}
	left := func(what, dir string, args []string, res result) {
		filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() && strings.HasSuffix(p, ".go") && !isPB(p) {
				c.fail(what+": files are written", args, res, []string{"+" + p})
			}
			return nil
		})
	}
	out := pick(c.r, []string{"../out/", "../" + filepath.Base(w.Dir) + "2/x", "./apart/", "./apart/x/y", "other.org/x/"})
	c.clean()
	args := append(append([]string{}, base...), "--svcout", out)
	for _, x := range c.fs {
		args = append(args, x.Path)
	}
	res := c.refused("a service outside the module", ok, "", args...)
	dir := filepath.Join(w.Dir, out)
	if out == "other.org/x/" {
		dir = filepath.Join(w.root, "gopath/src/other.org")
	}
	left("a service outside the module", dir, args, res)
	if dir != w.Dir && strings.HasPrefix(dir, w.root+"/") {
		os.RemoveAll(dir)
	}
	apart()
	// the definition
	far := pick(c.r, []string{filepath.Join(w.root, "far"), w.Dir + "x/y", own})
	args = append([]string{}, base...)
	for _, x := range c.fs {
		p := filepath.Join(far, x.Path)
		write(p, x.Text())
		args = append(args, p)
	}
	w.own(far)
	res = c.refused("a definition outside the module", ok, "", args...)
	left("a definition outside the module", far, args, res)
	os.RemoveAll(far)
	os.RemoveAll(own)
	c.clean()
}

// placed runs the tool with --svcout and from other directories: the files of
// the service come to the place asked for and differ by its import path only.
func (c *cliCase) placed(base []string, first map[string]string) {
	w, f := c.w, c.f
	name := f.lower() + "-service"
	dir := filepath.Dir(f.Path)
	type place struct {
		sub, out string
		want     string // directory of the service, relative to the module
	}
	w.Mkdir("sub/deep")
	places := []place{
		{"", "./x", "x"}, {"", "./x/", "x/" + name}, {"", "./a/b/c", "a/b/c"}, {"", "./" + dir + "/", dir + "/" + name},
		{"sub/deep", "./", "sub/deep/" + name}, {"sub/deep", "", "sub/deep/" + name}, {"sub/deep", "../out", "sub/out"}, {"sub/deep", "../../top/", "top/" + name},
		{dir, "", dir + "/" + name}, {"sub", "./y/./z", "sub/y/z"}, {"", ".", ""}, {"sub", ".", "sub"}, {"", "./" + f.lower() + ".v1", f.lower() + ".v1"},
	}
	c.r.Shuffle(len(places), func(a, b int) { places[a], places[b] = places[b], places[a] })
	for _, p := range places[:3] {
		if p.want == "" {
			continue // the module's own directory
		}
		c.clean()
		os.RemoveAll(filepath.Join(w.Dir, p.want))
		if p.sub != "" {
			w.Mkdir(p.sub)
		}
		if p.want == "sub" {
			w.Mkdir("sub/deep")
		}
		args := append([]string{}, base...)
		if p.out != "" {
			args = append(args, pick(c.r, [][]string{{"-o", p.out}, {"--svcout", p.out}, {"--svcout=" + p.out}})...)
		}
		for _, x := range c.fs {
			rel, err := filepath.Rel(filepath.Join(w.Dir, p.sub), filepath.Join(w.Dir, x.Path))
			must(err)
			args = append(args, rel)
		}
		res, diff := c.run("placed", p.sub, args...)
		if res.Code != 0 {
			c.fail("a valid definition is refused with --svcout", args, res, diff)
			continue
		}
		got := map[string]string{}
		for path, text := range c.snap() {
			rel, err := filepath.Rel(p.want, path)
			if err == nil && !strings.HasPrefix(rel, "../") {
				if filepath.Dir(path) != dir {
					path = filepath.Join(name, rel)
				}
			}
			got[path] = strings.Replace(text, "scratch/"+p.want+"/", "scratch/"+name+"/", -1)
		}
		want := map[string]string{}
		for path, text := range first {
			want[path] = text
		}
		// imports are sorted by path: compare the lines
		for _, m := range []map[string]string{got, want} {
			for k, v := range m {
				l := strings.Split(v, "\n")
				for i := range l {
					l[i] = strings.Join(strings.Fields(l[i]), " ")
				}
				sort.Strings(l)
				m[k] = strings.TrimSpace(strings.Join(l, "\n"))
			}
		}
		if d := diffSnap(want, got); len(d) > 0 {
			c.fail("the service is not where --svcout wants it", append(append([]string{"in " + p.sub}, args...), "want "+p.want), res, d)
		}
		os.RemoveAll(filepath.Join(w.Dir, p.want))
	}
}
