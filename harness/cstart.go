package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	checks["C17"] = checkDef{run: runC17,
		rule:    "one run of baron --start with a name, an output directory and what already stands there; the file it writes is read by protoc, generated from with the command it prints, and compiled. Non-trivial: every distinct name, directory and obstacle",
		assumes: []string{stubs, "names which begin with a letter, hold letters, digits, '_', '-' and blanks and do not spell one of the names the scaffold itself defines"}}
}

var startWords = []string{"foo", "Bar", "user", "HTTP", "x", "Z9", "order", "func", "type", "map", "string", "error", "main", "init", "go", "package", "service", "rpc", "message", "import",
	"context", "http", "pb", "server", "endpoint", "new", "client", "status", "proto", "svc", "cmd", "start", "var", "int32", "returns", "option", "stream", "fmt", "time", "log", "grpc", "transport", "handler", "true", "nil", "interface"}

func startName(r *rand.Rand) string {
	n := 1 + r.Intn(3)
	if r.Intn(3) == 0 {
		n = 1
	}
	sep := ""
	if r.Intn(3) == 0 { // words of one kind, as in "a b c"
		n, sep = 2+r.Intn(4), pick(r, []string{"-", "_", " ", "  ", "- "})
	}
	s := ""
	for i := 0; i < n; i++ {
		w := pick(r, startWords)
		switch r.Intn(4) {
		case 0:
			w = strings.ToUpper(w[:1]) + w[1:]
		case 1:
			w = strings.ToUpper(w)
		}
		if i > 0 && sep != "" {
			s += sep
		} else if i > 0 {
			s += pick(r, []string{"", "-", "_", " ", "--", "-_"})
		}
		s += w
	}
	if r.Intn(4) == 0 {
		s += fmt.Sprint(r.Intn(100))
	}
	if r.Intn(8) == 0 {
		s += pick(r, []string{"-", "_"})
	}
	return s
}

var startTaken = map[string]bool{"HTTP": true, "GRPC": true, "NATS": true, "StatusRequest": true, "StatusResponse": true, "ServiceStatus": true, "OK": true, "FAIL": true}

type startCase struct {
	arg, name string
	out       string // as given, or ""
	sub       string // where the tool is run
	dir       string // where the file is to be, in the module
	file      string
	svc       string
	pkg       string
}

func startPkg(name string) string {
	return strings.ToLower(strings.NewReplacer("-", "", " ", "").Replace(name))
}

func newStartCase(r *rand.Rand, i int, seen map[string]bool) *startCase {
	c := &startCase{sub: fmt.Sprintf("s%d", i)}
	for {
		c.name = startName(r)
		c.svc = goCamel(strings.NewReplacer("-", "_", " ", "_").Replace(c.name))
		c.pkg = startPkg(c.name)
		if !startTaken[c.svc] && c.pkg != "main" { // package main cannot be imported
			break
		}
	}
	c.arg = c.name
	switch {
	case r.Intn(8) == 0:
		c.arg += ".proto"
	case r.Intn(12) == 0:
		c.name, c.arg, c.svc = "start", "", "Start"
	}
	c.pkg = startPkg(c.name)
	c.dir = c.sub
	if c.arg != "" && r.Intn(2) == 0 {
		c.out = pick(r, []string{".", "./out", "out", "out/", "a/b/c", "./a/../d", "../" + c.sub + "/up", "out-1.x", "a_b"})
		c.dir = filepath.Join(c.sub, c.out)
	}
	c.file = filepath.Join(c.dir, c.pkg+".proto")
	return c
}

func (c *startCase) args() []string {
	a := []string{"--start"}
	if c.arg != "" {
		a = append(a, c.arg)
		if c.out != "" {
			a = append(a, c.out)
		}
	}
	return a
}

// quiet differences are none a run may make
func runC17(h *H) {
	n := h.N(96, 600)
	const perWS = 24
	r := h.Rand("cases")
	type batch struct {
		r     *rand.Rand
		cases []*startCase
	}
	var bs []*batch
	for i := 0; i < n; i++ {
		if i%perWS == 0 {
			bs = append(bs, &batch{r: rand.New(rand.NewSource(r.Int63()))})
		}
		b := bs[len(bs)-1]
		b.cases = append(b.cases, newStartCase(r, i, nil))
	}
	for _, b := range bs {
		h.startBatch(b.r, b.cases)
	}
}

var startNext = regexp.MustCompile(`(?m)^    baron (\S.*)$`)
var startNextEsc = regexp.MustCompile(`\\n    baron (.*?)\\n`)

func nextCommand(out string) []string {
	var rv []string
	out = strings.Replace(out, `\n`, "\n", -1)
	for _, m := range startNext.FindAllStringSubmatch(out, -1) {
		if !strings.HasPrefix(m[1], "--start") {
			rv = append(rv, strings.TrimSuffix(strings.TrimSpace(m[1]), `"`))
		}
	}
	return rv
}

func (h *H) startBatch(r *rand.Rand, cases []*startCase) {
	w := h.newWS()
	defer w.Close()
	for _, c := range cases {
		w.Mkdir(c.sub)
	}
	ok := make([]bool, len(cases))
	rnd := make([]*rand.Rand, len(cases))
	for i := range cases {
		rnd[i] = rand.New(rand.NewSource(r.Int63()))
	}
	parallel(len(cases), func(i int) { ok[i] = h.startOne(w, rnd[i], cases[i]) })
	res := w.Go("build", "./...")
	if res.Code != 0 {
		h.Violation("a service generated from a scaffold does not compile", map[string]interface{}{"output": clip(res.Out+res.Err, 3000)})
	}
	h.Count("services compiled", len(cases))
	if ents, _ := os.ReadDir(w.Tmp); len(ents) > 0 {
		h.Violation("temporary files are left", map[string]interface{}{"left": ents[0].Name()})
	}
}

func (h *H) startOne(w *WS, r *rand.Rand, c *startCase) bool {
	full := filepath.Join(w.Dir, c.file)
	dir := filepath.Join(w.Dir, c.sub)
	d := func(res result) map[string]interface{} {
		return map[string]interface{}{"args": c.args(), "exit": res.Code, "output": tail(res.Out+res.Err, 1500), "file": c.file}
	}
	// something in the way
	obstacle := pick(r, []string{"", "", "file", "empty file", "directory", "link", "dangling link", "file for a directory", "neighbours"})
	switch obstacle {
	case "file", "empty file", "directory", "link", "dangling link":
		w.Mkdir(c.dir)
		switch obstacle {
		case "file":
			w.Write(c.file, "syntax = \"proto3\"; // mine\n")
		case "empty file":
			w.Write(c.file, "")
		case "directory":
			w.Mkdir(c.file)
		case "dangling link":
			must(os.Symlink(filepath.Join(dir, "absent.txt"), full))
			w.chown(full)
		case "link":
			w.Write(c.sub+"/target.txt", "mine")
			must(os.Symlink(filepath.Join(dir, "target.txt"), full))
			w.chown(full)
		}
		before := state(dir)
		res := w.Baron(c.sub, c.args()...)
		h.Eval(js(c.args())+obstacle, true)
		if res.Code == 0 || strings.TrimSpace(res.Out+res.Err) == "" {
			h.Violation("an existing "+obstacle+" does not make --start fail with a message", d(res))
		}
		if diff := diffSnap(before, state(dir)); len(diff) > 0 {
			x := d(res)
			x["differences"] = diff
			h.Violation("--start changes files where a "+obstacle+" stands", x)
		}
		if !strings.Contains(res.Out+res.Err, filepath.Base(c.file)) {
			h.Violation("--start does not name the existing "+obstacle, d(res))
		}
		h.Count("existing files left alone", 1)
		must(os.RemoveAll(full))
	case "file for a directory":
		if c.dir == c.sub || filepath.Base(c.dir) == ".." {
			break
		}
		w.Write(c.dir, "mine")
		before := state(dir)
		res := w.Baron(c.sub, c.args()...)
		h.Eval(js(c.args())+obstacle, true)
		if res.Code == 0 || strings.TrimSpace(res.Out+res.Err) == "" {
			h.Violation("a file in the place of the directory does not make --start fail with a message", d(res))
		}
		if diff := diffSnap(before, state(dir)); len(diff) > 0 {
			h.Violation("--start changes files though it fails", d(res))
		}
		h.Count("existing files left alone", 1)
		must(os.Remove(filepath.Join(w.Dir, c.dir)))
	case "neighbours":
		for _, n := range []string{c.pkg, c.pkg + ".proto.bak", c.pkg + ".pb.go.txt", c.pkg + "2.proto.txt", "Start.proto.txt"} {
			w.Write(filepath.Join(c.dir, n), "mine")
		}
	}
	// runs which something makes fail
	complete := map[string]string{} // by what, for what must be the whole text
	for k := 0; k < h.N(2, 6) && h.straceWorks(w); k++ {
		call := pick(r, []string{"openat:error=EACCES", "openat:error=ENOSPC", "write:error=ENOSPC", "write:error=EIO", "renameat:error=EIO", "mkdirat:error=ENOSPC", "newfstatat:error=EIO", "fchmod:error=EPERM",
			"openat:signal=KILL", "write:signal=KILL", "renameat:signal=KILL", "close:signal=KILL", "newfstatat:signal=KILL"})
		sys := strings.SplitN(call, ":", 2)[0]
		when := fmt.Sprint(1 + r.Intn(4))
		if sys == "openat" {
			when = fmt.Sprint(1 + r.Intn(12))
		}
		trace := filepath.Join(w.root, "start-"+c.sub+".out")
		prev := state(dir)
		res := w.BaronEnv(c.sub, []string{"strace", "-f", "-qq", "-o", trace, "-e", "trace=" + sys, "-e", "inject=" + call + ":when=" + when}, nil, c.args()...)
		hit := injected.MatchString(read(trace))
		os.Remove(trace)
		if h.straceBroke(res) {
			return false
		}
		kill := strings.Contains(call, "KILL")
		x := d(res)
		x["fault"] = call + " " + when
		h.Eval(js(c.args())+call+when, hit)
		if hit {
			h.Count("runs hit by "+call, 1)
		}
		switch {
		case hit && !kill && res.Code != 0 && strings.TrimSpace(res.Out+res.Err) == "" && sys != "write":
			h.Violation("--start fails without a word", x)
		case res.Code == 0 && !exists(full):
			h.Violation("--start ends as if it had succeeded but there is no file", x)
		case res.Code != 0 && !kill && exists(full):
			h.Violation("--start leaves a file though it failed", x)
		}
		if exists(full) {
			complete[call+" "+when] = read(full)
			must(os.Remove(full))
		}
		now := state(dir)
		for _, p := range diffSnap(prev, now) {
			q := p[1:]
			switch {
			case p[0] == '+' && strings.HasPrefix(now[q], "d"):
			case p[0] == '+' && kill && strings.HasPrefix(filepath.Base(q), "."):
				must(os.Remove(filepath.Join(dir, q)))
			default:
				x["path"] = p
				h.Violation("--start changes other files, or leaves some, when it fails", x)
			}
		}
	}
	before := state(dir)
	res := w.Baron(c.sub, c.args()...)
	h.Eval(js(c.args())+"free", true)
	if res.Code != 0 {
		h.Violation("--start fails", d(res))
		return false
	}
	rel, _ := filepath.Rel(dir, full)
	for _, x := range diffSnap(before, state(dir)) {
		p := x[1:]
		if x[0] != '+' || p != rel && !strings.HasPrefix(rel, p+"/") {
			y := d(res)
			y["path"] = x
			h.Violation("--start writes something else than the file of the name", y)
			return false
		}
	}
	if !exists(full) {
		h.Violation("--start does not write the file of the name", d(res))
		return false
	}
	text := read(full)
	for fault, t := range complete {
		if t != text {
			x := d(res)
			x["fault"], x["text"] = fault, t
			h.Violation("--start leaves a part of the definition", x)
		}
	}
	h.Count("files whole after a fault", len(complete))
	// a second run leaves it alone
	again := w.Baron(c.sub, c.args()...)
	if again.Code == 0 || read(full) != text {
		h.Violation("a second --start does not leave the file of the first alone", d(again))
	}
	if strings.HasSuffix(c.arg, ".proto") && !strings.Contains(res.Err+res.Out, "suffix") {
		h.Violation("--start does not warn of the suffix of a name", d(res))
	}
	// what is written
	scratch := filepath.Join(h.W, "start", c.sub)
	write(filepath.Join(scratch, "x.proto"), text)
	set, err := h.protoc(scratch, "x.proto")
	if err != nil {
		x := d(res)
		x["text"], x["error"] = text, err.Error()
		h.Violation("protoc refuses a scaffold", x)
		return false
	}
	f := set["x.proto"]
	what := ""
	switch {
	case f.GetPackage() != c.pkg:
		what = "package " + f.GetPackage() + ", not " + c.pkg
	case len(f.Service) != 1 || f.Service[0].GetName() != c.svc:
		what = "service is not " + c.svc
	case len(f.Service[0].Method) != 1 || f.Service[0].Method[0].GetName() != "Status":
		what = "rpc is not Status"
	default:
		m := f.Service[0].Method[0]
		b := httpRules(m)
		if len(b) != 1 || strings.ToLower(b[0].Verb) != "get" || b[0].Path != "/status" {
			what = "binding is not GET /status: " + js(b)
		}
		if m.GetInputType() != "."+c.pkg+".StatusRequest" || m.GetOutputType() != "."+c.pkg+".StatusResponse" {
			what = "types are not StatusRequest and StatusResponse"
		}
	}
	if what != "" {
		x := d(res)
		x["text"], x["wrong"] = text, what
		h.Violation("a scaffold is not of the name it is given", x)
		return false
	}
	// the command it prints
	next := nextCommand(res.Err + res.Out)
	if len(next) != 1 {
		x := d(res)
		x["commands"] = next
		h.Violation("--start does not say how to go on", x)
		return false
	}
	gen := w.Baron(c.sub, next[0])
	if gen.Code != 0 {
		x := d(gen)
		x["command"] = next[0]
		h.Violation("the command --start prints does not work", x)
		return false
	}
	svc := filepath.Join(c.sub, strings.ToLower(c.svc)+"-service", "service", "service.go")
	if !w.Exists(svc) {
		x := d(gen)
		x["missing"] = svc
		h.Violation("the command --start prints does not generate the service", x)
		return false
	}
	h.Count("scaffolds generated from", 1)
	return true
}
