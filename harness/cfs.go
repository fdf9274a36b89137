package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
)

func init() {
	checks["C12"] = checkDef{run: runC12,
		rule:    "one run of the tool on a definition from a clean start, in another process, environment, place, order of files or spelling of the definition, whose output is compared byte for byte with that of the first. Non-trivial: every distinct pair of definition and variation",
		assumes: []string{"protoc's own output is not judged where the spelling of the definition varies"}}
	checks["C16"] = checkDef{run: runC16,
		rule:    "one run of the tool in a workspace full of files which are none of its business: the files which appear, change and vanish are compared with those it is to write. Non-trivial: every distinct set of arguments and files",
		assumes: []string{"where strace cannot be used, attempts outside the workspace are refused by the system (the tool runs as another user) but not reported"}}
}

// split moves the enums and the messages which are not the service's own to
// files of their own.
func (f *File) split(r *rand.Rand, parts int) []*File {
	base := strings.TrimSuffix(f.Path, ".proto")
	main := *f
	main.Enums, main.Msgs = nil, nil
	own := map[string]bool{}
	for _, p := range f.Svc.Rpcs {
		own[p.In], own[p.Out] = true, true
	}
	files := []*File{}
	types := &File{Path: base + "_types.proto", Pkg: f.Pkg, GoPkg: f.GoPkg, Enums: f.Enums}
	for _, i := range f.Imps {
		if i != "google/api/annotations.proto" {
			types.Imps = append(types.Imps, i)
		}
	}
	for _, m := range f.Msgs {
		if !own[m.Name] {
			types.Msgs = append(types.Msgs, m)
		}
	}
	files = append(files, types)
	main.Imps = append(append([]string{}, f.Imps...), filepath.Base(types.Path))
	var msgs *File
	if parts > 2 {
		msgs = &File{Path: base + "_msgs.proto", Pkg: f.Pkg, GoPkg: f.GoPkg, Imps: append(append([]string{}, types.Imps...), filepath.Base(types.Path))}
		main.Imps = append(main.Imps, filepath.Base(msgs.Path))
		files = append(files, msgs)
	}
	for _, m := range f.Msgs {
		if own[m.Name] {
			if msgs != nil && r.Intn(2) == 0 {
				msgs.Msgs = append(msgs.Msgs, m)
			} else {
				main.Msgs = append(main.Msgs, m)
			}
		}
	}
	return append([]*File{&main}, files...)
}

// outputs are the files a run writes, relative to the directory the service
// goes to (svc) or to that of the .proto files (pb).
func outputs(files []*File, client bool) (svc, pb []string) {
	n := ""
	for i, f := range files {
		base := strings.TrimSuffix(filepath.Base(f.Path), ".proto")
		pb = append(pb, base+".pb.go")
		if i == 0 {
			pb = append(pb, base+".pb.baron.go")
		}
		if f.Svc != nil {
			n = f.lower()
			pb = append(pb, base+"_grpc.pb.go")
		}
	}
	svc = []string{"cmd/" + n + "/main.go", "server/server.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "service/service.go", "service/wrapper.go"}
	if client {
		svc = append(svc, "cmd/"+n+"-client/main.go")
	}
	return
}

// --- C12 ---

func runC12(h *H) {
	n := h.N(24, 160)
	r := h.Rand("files")
	o := defOpts
	o.Streams = false
	type cse struct {
		r     *rand.Rand
		files []*File
		c     genConf
	}
	var cases []cse
	for i := 0; i < n; i++ {
		f := genFile(r, fmt.Sprintf("c%d", i), o)
		f.number(i)
		c := cse{r: rand.New(rand.NewSource(r.Int63())), files: []*File{f}, c: genConf{transport: transports[i%3], client: r.Intn(2) == 0}}
		if i%3 > 0 {
			c.files = f.split(r, 1+i%3)
		}
		cases = append(cases, c)
	}
	wa, wb := h.newWS(), h.newWS()
	defer wa.Close()
	defer wb.Close()
	parallel(len(cases), func(i int) {
		c := cases[i]
		f := c.files[0]
		texts := func(w *WS, render func(f *File) string) {
			for _, x := range c.files {
				w.Write(x.Path, render(x))
			}
		}
		plain := func(f *File) string { return f.Text() }
		svcDir := f.lower() + "-service"
		keep := false
		run := func(w *WS, sub string, env []string, args []string) (map[string]string, bool) {
			dir := filepath.Join(w.Dir, filepath.Dir(f.Path))
			if !keep {
				os.RemoveAll(filepath.Join(w.Dir, svcDir))
				ents, _ := os.ReadDir(dir)
				for _, e := range ents {
					if strings.HasSuffix(e.Name(), ".go") {
						os.Remove(filepath.Join(dir, e.Name()))
					}
				}
			}
			res := w.BaronEnv(sub, nil, env, args...)
			if res.Code != 0 {
				h.Violation("a valid definition is refused", map[string]interface{}{"files": all(c.files), "args": args, "output": tail(res.Out+res.Err, 1500)})
				return nil, false
			}
			snap := map[string]string{}
			for p, t := range snapshot(filepath.Join(w.Dir, svcDir)) {
				snap["svc/"+p] = t
			}
			for p, t := range snapshot(dir) {
				if !strings.HasSuffix(p, ".proto") {
					snap["pb/"+p] = t
				}
			}
			return snap, true
		}
		args := func(paths ...string) []string {
			a := []string{"--transport", c.c.transport}
			if c.c.client {
				a = append(a, "-c")
			}
			return append(a, paths...)
		}
		var paths, bases, abs, rev []string
		for k, x := range c.files {
			paths = append(paths, x.Path)
			bases = append(bases, filepath.Base(x.Path))
			abs = append(abs, filepath.Join(wa.Dir, x.Path))
			if k > 0 {
				rev = append([]string{x.Path}, rev...)
			}
		}
		rev = append([]string{paths[0]}, rev...)
		texts(wa, plain)
		first, ok := run(wa, "", nil, args(paths...))
		if !ok {
			return
		}
		for p, t := range first {
			if strings.Contains(t, wa.root) || strings.Contains(t, h.W) {
				h.Violation("the output names the place it was made in", map[string]interface{}{"files": all(c.files), "path": p})
			}
		}
		svc, pb := outputs(c.files, c.c.client)
		var want []string
		for _, p := range svc {
			want = append(want, "svc/"+p)
		}
		for _, p := range pb {
			want = append(want, "pb/"+p)
		}
		sort.Strings(want)
		var got []string
		for p, t := range first {
			if t != "<dir>" {
				got = append(got, p)
			}
		}
		sort.Strings(got)
		if js(got) != js(want) {
			h.Violation("a run writes other files than it should", map[string]interface{}{"files": all(c.files), "args": args(paths...), "got": got, "want": want})
		}
		compare := func(what string, second map[string]string, ok bool, skip func(p string) bool) {
			h.Eval(what+js(paths)+f.Text(), true)
			if !ok {
				return
			}
			h.Count("runs compared: "+what, 1)
			for _, d := range diffSnap(first, second) {
				p := d[1:]
				if skip != nil && skip(p) {
					continue
				}
				h.Violation("the output varies with "+what, map[string]interface{}{"files": all(c.files), "args": args(paths...), "path": d, "difference": firstDiff(first[p], second[p])})
				return
			}
			h.Count("files compared", len(first))
		}
		for k := 0; k < h.N(3, 8); k++ {
			s, ok := run(wa, "", nil, args(paths...))
			compare("the run", s, ok, nil)
		}
		// the files baron owns, with something else in them
		keep = true
		base := strings.TrimSuffix(f.Path, ".proto")
		for k := 0; k < h.N(2, 6); k++ {
			for _, p := range []string{svcDir + "/server/server.go", base + ".pb.baron.go"} {
				was := wa.Read(p)
				wa.Write(p, pick(c.r, []string{"", "garbage", was + "\nfunc Added() {}\n", was[:len(was)/2], "package other\n", was + was, strings.Replace(was, "func ", "func X", -1)}))
			}
			s, ok := run(wa, "", nil, args(paths...))
			compare("the content of its own files", s, ok, nil)
		}
		keep = false
		s, ok := run(wa, "", []string{"GOMAXPROCS=1", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "TZ=Asia/Tokyo", "USER=other", "COLUMNS=40"}, args(paths...))
		compare("the environment", s, ok, nil)
		s, ok = run(wa, filepath.Dir(f.Path), nil, append(args(bases...), "--svcout", "../"+svcDir))
		compare("the directory it is run in", s, ok, nil)
		s, ok = run(wa, "", nil, args(abs...))
		compare("absolute paths", s, ok, nil)
		texts(wb, plain)
		s, ok = run(wb, "", nil, args(paths...))
		compare("the place of the module", s, ok, nil)
		// modules the module uses which lie around it
		wc := h.newWS()
		texts(wc, plain)
		gomod := "module scratch\n\ngo 1.13\n" // whose modules are all there
		around := map[string]string{"mo": "../mo", "up": "..", "near": "./" + filepath.Dir(f.Path) + "x", "m": "../m", "deep": "./elsewhere/deep"}
		for k := 0; k < h.N(2, 6); k++ {
			var names []string
			for n := range around {
				if c.r.Intn(2) == 0 {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			text := gomod
			for _, n := range names {
				d := filepath.Join(wc.Dir, around[n])
				must(os.MkdirAll(d, 0755))
				write(filepath.Join(d, "go.mod"), "module example.com/"+n+"\n\ngo 1.13\n")
				write(filepath.Join(d, "x.go"), "package x\n")
				wc.own(d)
				text += "\nrequire example.com/" + n + " v0.0.0\nreplace example.com/" + n + " => " + around[n] + "\n"
			}
			wc.Write("go.mod", text)
			s, ok = run(wc, "", nil, args(paths...))
			compare("the modules around it", s, ok, nil)
			for _, n := range names {
				d := filepath.Join(wc.Dir, around[n])
				os.Remove(filepath.Join(d, "go.mod"))
				os.Remove(filepath.Join(d, "x.go"))
			}
		}
		wc.Close()
		if len(c.files) > 1 {
			s, ok = run(wa, "", nil, args(rev...))
			compare("the order of the files", s, ok, nil)
			if len(c.files) > 1 {
				// the first file names the .pb.baron.go file
				last := append([]string{paths[len(paths)-1]}, paths[:len(paths)-1]...)
				s, ok = run(wa, "", nil, args(last...))
				from := "pb/" + strings.TrimSuffix(filepath.Base(last[0]), ".proto") + ".pb.baron.go"
				to := "pb/" + strings.TrimSuffix(filepath.Base(paths[0]), ".proto") + ".pb.baron.go"
				if ok {
					if t, is := s[from]; is {
						delete(s, from)
						s[to] = t
					}
				}
				compare("which file comes first", s, ok, nil)
			}
		}
		// another spelling of the same definition
		pbgo := func(p string) bool { return strings.HasSuffix(p, ".pb.go") }
		for k := 0; k < h.N(2, 8); k++ {
			layout := k % numLayouts
			if !h.Thorough() {
				layout = c.r.Intn(numLayouts)
			}
			texts(wa, func(f *File) string { return f.tokens(c.r).render(layout, c.r) })
			s, ok := run(wa, "", nil, args(paths...))
			compare("the spelling of the definition", s, ok, pbgo)
		}
		if i < 3 {
			h.Sample(map[string]interface{}{"args": args(paths...), "files": len(first)})
		}
	})
	for g := 0; g < h.N(6, 40); g++ {
		h.beside(g, rand.New(rand.NewSource(r.Int63())))
	}
}

// beside runs the tool for definitions of one directory one after another,
// and all at once: a run has no part in what another generates.
func (h *H) beside(g int, r *rand.Rand) {
	o := defOpts
	o.Streams = false
	var files []*File
	for k := 0; k < 6; k++ {
		i := 1000 + 10*g + k
		f := genFile(r, fmt.Sprintf("c%d", i), o)
		f.number(i)
		f.Path, f.GoPkg = "par/"+filepath.Base(f.Path), "scratch/par"
		files = append(files, f)
	}
	flags := pick(r, [][]string{nil, {"-c"}, {"--transport", "grpc"}, {"--svcout", "./svcs/"}})
	gen := func(workers int) map[string]string {
		w := h.newWS()
		defer w.Close()
		for _, f := range files {
			w.Write(f.Path, f.Text())
		}
		// the second run has files to keep
		for n := 0; n < 2; n++ {
			bad := int32(0)
			parallelN(len(files), workers, func(k int) {
				args := append(append([]string{}, flags...), files[k].Path)
				if res := w.Baron("", args...); res.Code != 0 && atomic.AddInt32(&bad, 1) == 1 {
					h.Violation(fmt.Sprintf("a run fails, with %d at a time", workers), map[string]interface{}{"args": args, "files": all(files), "output": tail(res.Out+res.Err, 2000)})
				}
			})
			if bad > 0 {
				return nil
			}
		}
		return snapshot(w.Dir)
	}
	a := gen(1)
	b := gen(len(files))
	h.Eval(fmt.Sprint("beside ", all(files)), true)
	h.Count("runs beside others", 2*len(files))
	if a == nil || b == nil {
		return
	}
	if d := diffSnap(a, b); len(d) > 0 {
		h.Violation("runs beside each other generate something else", map[string]interface{}{"files": all(files), "flags": flags, "differ": d})
	}
}

func all(files []*File) string {
	var b strings.Builder
	for _, f := range files {
		b.WriteString("-- " + f.Path + "\n" + f.Text() + "\n")
	}
	return b.String()
}

// --- C16 ---

func runC16(h *H) {
	n := h.N(360, 2400)
	parallel(n, func(i int) { h.confined(i) })
}

// state is a snapshot with modes
// odd puts into a directory of the module something of the author's which is no
// file as others are, and tells how many it put.
func (w *WS) odd(r *rand.Rand, dir string) int {
	w.Mkdir(dir)
	path := func(name string) string { return filepath.Join(w.Dir, dir, name) }
	p := ""
	switch r.Intn(6) {
	case 0:
		p = path(pick(r, []string{".#service.go", ".#main.go", ".#server.go"})) // an editor's lock
		if os.Symlink("author@host.4242:1700000000", p) != nil {
			return 0
		}
	case 1:
		p = path("broken.go")
		if os.Symlink("../nowhere/x.go", p) != nil {
			return 0
		}
	case 2:
		if r.Intn(10) > 0 { // who opens one may wait for ever
			return 0
		}
		p = path("pipe")
		if syscall.Mkfifo(p, 0600) != nil {
			return 0
		}
	case 3:
		p = path("run.sock")
		l, err := net.Listen("unix", p)
		if err != nil {
			return 0
		}
		l.(*net.UnixListener).SetUnlinkOnClose(false)
		l.Close()
	case 4:
		p = path("loop")
		if os.Symlink("loop", p) != nil {
			return 0
		}
	case 5:
		p = path("around")
		if os.Symlink("..", p) != nil {
			return 0
		}
	}
	w.chown(p)
	return 1
}

func state(dir string) map[string]string {
	s := snapshot(dir)
	for p, t := range s {
		if fi, err := os.Lstat(filepath.Join(dir, p)); err == nil {
			s[p] = fi.Mode().String() + " " + t
		}
	}
	return s
}

var straceOK = -1

// tracer returns the command prefix which records what a run does to files.
func (h *H) tracer(out string) []string {
	return []string{"strace", "-f", "-qq", "-o", out, "-e", "trace=openat,open,creat,mkdir,mkdirat,unlink,unlinkat,rmdir,rename,renameat,renameat2,symlink,symlinkat,link,linkat,truncate,chmod,fchmodat,chown,fchownat,utimensat"}
}

var straceWords = regexp.MustCompile(`(?m)^strace: `)

// straceBroke tells that it is strace itself which failed: such a run says
// nothing.
func (h *H) straceBroke(r result) bool {
	if !straceWords.MatchString(r.Err) {
		return false
	}
	h.Count("runs strace gave up", 1)
	return true
}

func (h *H) straceWorks(w *WS) bool {
	buildMu.Lock()
	defer buildMu.Unlock()
	if straceOK < 0 {
		straceOK = 0
		r := commandX(60e9, w.cred, w.Dir, w.env, "", "strace", "-f", "-qq", "-o", "/dev/null", "-e", "inject=getppid:error=EPERM", "/bin/true")
		if r.Code == 0 {
			straceOK = 1
		} else {
			h.Count("strace cannot be used", 1)
		}
	}
	return straceOK == 1
}

var writeCall = regexp.MustCompile(`^\d+ +(\w+)\((.*)$`)
var quoted = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// written lists the paths which a trace says a run changed or tried to, as
// far as the paths are absolute.
func written(trace string) map[string]string {
	rv := map[string]string{}
	for _, line := range strings.Split(trace, "\n") {
		m := writeCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		if strings.HasPrefix(m[1], "open") && !strings.Contains(m[2], "O_WRONLY") && !strings.Contains(m[2], "O_RDWR") && !strings.Contains(m[2], "O_CREAT") {
			continue
		}
		for _, q := range quoted.FindAllStringSubmatch(m[2], -1) {
			if strings.HasPrefix(q[1], "/") {
				rv[q[1]] = clip(line, 200)
			}
		}
	}
	return rv
}

func (h *H) confined(i int) {
	r := rand.New(rand.NewSource(h.Rand(fmt.Sprint("confined", i)).Int63()))
	w := h.newWS()
	defer w.Close()
	o := defOpts
	o.Streams = false
	f := genFile(r, fmt.Sprintf("c%d", i), o)
	f.number(i)
	if r.Intn(3) == 0 {
		f.Path = strings.TrimSuffix(f.Path, ".proto") + pick(r, []string{".v1", ".api.v2beta", "-x.y", ".pb", ".proto3x", ".go"}) + ".proto"
	}
	files := []*File{f}
	if r.Intn(2) == 0 {
		files = f.split(r, 2+r.Intn(2))
	}
	n := f.lower()
	// where the module is, and where the tool is run
	mod := w.Dir
	gopath := filepath.Join(w.root, "gopath")
	var env []string
	if i%5 == 4 {
		// in GOPATH, whose packages --svcout can name
		switch (i / 5) % 3 {
		case 1:
			// of several places the first counts
			second := filepath.Join(w.root, "gopath2")
			must(os.MkdirAll(filepath.Join(second, "src/scratch"), 0755))
			w.own(second)
			env = []string{"GOPATH=" + gopath + ":" + second}
			if i/15%2 == 0 {
				// the annotations which definitions import may be in any
				must(os.Rename(filepath.Join(gopath, "src/github.com"), filepath.Join(second, "src/github.com")))
			}
		case 2:
			// where it is not set
			must(os.Rename(gopath, filepath.Join(w.Home, "go")))
			gopath = filepath.Join(w.Home, "go")
			env = []string{"GOPATH="}
		}
		h.Count("GOPATH: "+[]string{"one place", "two places", "not set"}[(i/5)%3], 1)
		mod = filepath.Join(gopath, "src/scratch")
		must(os.Rename(w.Dir, mod))
		w.Dir = mod
	}
	sub := ""
	switch r.Intn(3) {
	case 0:
		sub = filepath.Dir(f.Path)
	case 1:
		sub = "elsewhere"
		w.Mkdir(sub)
	}
	cwd := filepath.Join(mod, sub)
	args := []string{"--transport", pick(r, transports)}
	client := r.Intn(2) == 0
	if client {
		args = append(args, "-c")
	}
	type out struct{ flag, dir string }
	outs := []out{
		{"", filepath.Join(cwd, n+"-service")}, {"./", filepath.Join(cwd, n+"-service")}, {"./x", filepath.Join(cwd, "x")}, {"./x/", filepath.Join(cwd, "x", n+"-service")},
		{"./a/b/c", filepath.Join(cwd, "a/b/c")}, {"./a/../d/", filepath.Join(cwd, "d", n+"-service")},
	}
	if sub != "" {
		outs = append(outs, out{"../y/", filepath.Join(mod, "y", n+"-service")}, out{"../y/z", filepath.Join(mod, "y/z")}, out{"..", mod}, out{"../", filepath.Join(mod, n+"-service")})
	}
	if sub == "elsewhere" {
		outs = append(outs, out{".", cwd})
	}
	if i%5 == 4 {
		outs = []out{{"scratch/p/q", filepath.Join(mod, "p/q")}, {"scratch/p/", filepath.Join(mod, "p", n+"-service")}, {"scratch/" + n, filepath.Join(mod, n)}}
	}
	oc := outs[r.Intn(len(outs))]
	if oc.flag != "" {
		args = append(args, "--svcout", oc.flag)
	}
	for _, x := range files {
		w.Write(x.Path, x.Text())
		rel, err := filepath.Rel(cwd, filepath.Join(mod, x.Path))
		must(err)
		args = append(args, rel)
	}
	// files which are none of its business, and stale ones it removes
	svcRel, err := filepath.Rel(mod, oc.dir)
	must(err)
	put := func(p string) { w.Write(p, "// content of "+p+"\n") }
	pbDir := filepath.Dir(f.Path)
	for _, p := range []string{"other-service/service/service.go.txt", "README", pbDir + "/notes.txt", pbDir + "/" + pbDir + ".pb.go.bak", "x.txt", "svc/server/cli/a.txt", "svc/client/cli/a.txt", "cmd/" + n + "-server/a.txt"} {
		if svcRel == "." && (strings.HasPrefix(p, "svc/") || strings.HasPrefix(p, "cmd/")) {
			continue
		}
		put(p)
	}
	stale := map[string]bool{}
	for _, p := range []string{"svc/server/cli", "svc/client/cli", "cmd/" + n + "-server"} {
		d := filepath.Join(svcRel, p)
		switch r.Intn(4) {
		case 0:
			put(d + "/old.txt")
			put(d + "/deep/er/old.txt")
			stale[d] = true
		case 1:
			// a link to something of the author's
			w.Mkdir(filepath.Dir(d))
			put("precious/" + filepath.Base(d) + "/thing.txt")
			must(os.Symlink(filepath.Join(mod, "precious", filepath.Base(d)), filepath.Join(mod, d)))
			w.chown(filepath.Join(mod, d))
			stale[d] = true
		case 2:
			put(d) // a file of that name
			stale[d] = true
		}
	}
	for _, p := range []string{"svc/server/cli2/a", "svc/server/http.txt", "svc/client/clients/a", "svc/client/cli.txt", "svc/x", "cmd/" + n + "-server2/a", "cmd/" + n + "-serve/a", "cmd/x" + n + "-server/a", "cmd/server/a",
		"cmd/" + n + "/notes.txt", "server/cli/a.txt", "service/cli/a.txt", "client/cli/a.txt", "handlers/a.txt", ".keep", "docs/x.md", "service/data.bin", "server/notes"} {
		if r.Intn(2) == 0 {
			put(filepath.Join(svcRel, p))
		}
	}
	odd := 0
	for _, p := range []string{"", "service", "server", "cmd", "cmd/" + n, "cmd/" + n + "-client"} {
		d := filepath.Join(svcRel, p)
		switch r.Intn(6) {
		case 0:
			odd += w.odd(r, d)
		case 1:
			odd += w.odd(r, d)
			odd += w.odd(r, d)
		}
	}
	h.Count("files of other kinds beside its own", odd)
	for _, d := range []string{w.Tmp, w.Home, filepath.Join(gopath, "src")} {
		p := filepath.Join(d, "sentinel")
		write(p, "sentinel")
		w.chown(p)
	}
	trace := ""
	var prefix []string
	if i%4 == 0 && h.straceWorks(w) {
		trace = filepath.Join(w.root, "trace.out")
		prefix = h.tracer(trace)
	}
	before := state(w.root)
	res := w.BaronEnv(sub, prefix, env, args...)
	if prefix != nil && h.straceBroke(res) {
		return
	}
	calls := map[string]string{}
	if trace != "" {
		calls = written(read(trace))
		os.Remove(trace)
	}
	d := map[string]interface{}{"args": args, "directory": sub, "service directory": svcRel, "files": all(files)}
	h.Eval(js(args)+all(files)+js(stale), true)
	if res.Code != 0 {
		d["output"] = tail(res.Out+res.Err, 1500)
		h.Violation("a valid definition is refused", d)
		return
	}
	after := state(w.root)
	modRel, _ := filepath.Rel(w.root, mod)
	want := map[string]bool{} // files which may differ
	svc, pb := outputs(files, client)
	for _, p := range svc {
		want[filepath.Join(modRel, svcRel, p)] = true
	}
	for _, p := range pb {
		want[filepath.Join(modRel, pbDir, p)] = true
	}
	dirs := map[string]bool{} // directories which may appear
	for p := range want {
		if _, ok := after[p]; !ok {
			d["missing"] = p
			h.Violation("a file is not written", d)
			return
		}
		for q := filepath.Dir(p); q != "."; q = filepath.Dir(q) {
			dirs[q] = true
		}
	}
	for _, x := range diffSnap(before, after) {
		p := x[1:]
		inStale := false
		for s := range stale {
			s = filepath.Join(modRel, s)
			inStale = inStale || p == s || strings.HasPrefix(p, s+"/")
		}
		switch {
		case want[p] && x[0] != '-':
		case x[0] == '+' && dirs[p] && strings.HasPrefix(after[p], "d"):
		case x[0] == '-' && inStale:
		case x[0] == '+' && strings.HasPrefix(p, "home/.c"), strings.HasPrefix(p, "home/.config"):
			// the go command's own
		default:
			d["path"] = x
			h.Violation("a run writes, changes or removes a file which is none of its business", d)
			return
		}
	}
	for s := range stale {
		if _, ok := after[filepath.Join(modRel, s)]; ok {
			d["path"] = s
			h.Violation("a stale file is left", d)
			return
		}
		h.Count("stale files removed", 1)
	}
	h.Count("files which had to stay", len(before))
	h.Count("service written to: "+strings.Replace(oc.flag, n, "NAME", -1), 1)
	for p, line := range calls {
		if !strings.HasPrefix(p, w.root+"/") && !strings.HasPrefix(p, filepath.Join(h.W, toolCacheInAll)) && !strings.HasPrefix(p, "/dev/") && !strings.HasPrefix(p, "/proc/") && !strings.HasPrefix(p, os.Getenv("GOCACHE")) && !strings.HasPrefix(p, os.Getenv("GOMODCACHE")) {
			d["call"] = line
			h.Violation("a run writes outside its workspace", d)
			return
		}
	}
	if trace != "" {
		h.Count("runs traced", 1)
		h.Count("traced calls which write", len(calls))
	}
	if i < 3 {
		h.Sample(map[string]interface{}{"args": args, "stale": len(stale)})
	}
}
