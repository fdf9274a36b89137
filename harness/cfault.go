package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C15"] = checkDef{run: runC15,
		rule:    "a regeneration which a fault is made to hit: a bad definition, a missing or failing tool, an obstacle in the file system, a failing system call, or the end of the process at some point. What is left of every file is compared with what it was and would have become; then the run is repeated without the fault. Non-trivial: every distinct fault and definition",
		assumes: []string{stubs, "a process which ends loses none of its completed writes (no power failure)"}}
}

// fault is something which can go wrong with one run.
type fault struct {
	name   string
	before func(c *faultCase)               // prepares, or nil
	after  func(c *faultCase)               // clears what before did
	prefix func(c *faultCase) []string      // command the tool is run by
	env    func(c *faultCase) []string      // environment
	run    func(c *faultCase) result        // runs the tool itself
	must   bool                             // the run must fail
	kills  bool                             // the process may end without a word
	intact bool                             // nothing of the service may change
	hit    func(c *faultCase, r result) int // how often the fault was met
	undo   func(c *faultCase)               // puts back what the fault itself replaced
}

type faultCase struct {
	*histCase
	old, new string // the definition before and after
	s0, s1   map[string]string
	trace    string
	stats    map[string]int
}

func runC15(h *H) {
	n := h.N(6, 14)
	r := h.Rand("cases")
	var cs []*faultCase
	for i := 0; i < n; i++ {
		f := genFile(r, fmt.Sprintf("c%d", i), histOpts)
		f.number(i)
		c := &histCase{h: h, w: h.newWS(), r: rand.New(rand.NewSource(r.Int63())), f: f, n: i, extra: map[string]string{}, ever: map[string]bool{},
			conf: genConf{transport: transports[i%3], client: r.Intn(3) == 0, sub: r.Intn(4) == 0}}
		cs = append(cs, &faultCase{histCase: c})
	}
	parallel(len(cs), func(i int) {
		c := cs[i]
		defer c.w.Close()
		if c.prepare() {
			for _, ft := range c.faults() {
				c.try(ft)
			}
		}
	})
}

func (c *faultCase) snap() map[string]string {
	rv := map[string]string{}
	for p, t := range snapshot(filepath.Join(c.w.Dir, c.svcDir())) {
		rv[filepath.Join(c.svcDir(), p)] = t
	}
	pb := filepath.Dir(c.f.Path)
	for p, t := range snapshot(filepath.Join(c.w.Dir, pb)) {
		p = filepath.Join(pb, p)
		if _, ok := rv[p]; !ok {
			rv[p] = t
		}
	}
	return rv
}

// restore makes the module what it was before the run.
func (c *faultCase) restore() {
	now := c.snap()
	var gone []string
	for p, t := range now {
		if want, ok := c.s0[p]; !ok || want != t && (strings.HasPrefix(want, "<") || strings.HasPrefix(t, "<")) {
			gone = append(gone, p)
		}
	}
	for _, p := range gone {
		must(os.RemoveAll(filepath.Join(c.w.Dir, p)))
	}
	for p, t := range c.s0 {
		if t == "<dir>" {
			c.w.Mkdir(p)
		} else if strings.HasPrefix(t, "<link>") {
			full := filepath.Join(c.w.Dir, p)
			if _, err := os.Lstat(full); err != nil {
				must(os.Symlink(strings.TrimPrefix(t, "<link>"), full))
				c.w.chown(full)
			}
		} else if c.w.Read(p) != t || !c.w.Exists(p) {
			c.w.Write(p, t)
		}
	}
	c.w.Write(c.f.Path, c.new)
}

func (c *faultCase) prepare() bool {
	h, w, f := c.h, c.w, c.f
	c.old = f.Text()
	w.Write(f.Path, c.old)
	run := func() bool {
		res := w.Baron(c.conf.dir(f), c.conf.args(f)...)
		if res.Code != 0 {
			c.fail("a valid definition is refused", map[string]interface{}{"output": tail(res.Out+res.Err, 1500)})
		}
		return res.Code == 0
	}
	if !run() {
		return false
	}
	src := c.editHandlers(w.Read(c.handler()))
	for j := 0; j < 4; j++ {
		src = c.editCode(src)
	}
	w.Write(c.handler(), src)
	for j := 0; j < 4; j++ {
		c.editOther()
	}
	for j := 0; j < 3; j++ {
		c.editProto()
	}
	c.new = f.Text()
	c.s0 = c.snap()
	w.Write(f.Path, c.new)
	if !run() {
		return false
	}
	c.s1 = c.snap()
	h.Count("regenerations which faults are to hit", 1)
	return true
}

func (c *faultCase) generated() []string {
	var rv []string
	for p, t := range c.s1 {
		if !strings.HasPrefix(t, "<") && !strings.HasSuffix(p, ".proto") { // no directory, link or other thing
			if _, mine := c.extra[p]; !mine {
				rv = append(rv, p)
			}
		}
	}
	sort.Strings(rv)
	return rv
}

func isPB(p string) bool { return strings.HasSuffix(p, ".pb.go") }

func (c *faultCase) try(ft fault) {
	if c.dead {
		return
	}
	h, w := c.h, c.w
	c.restore()
	if ft.before != nil {
		ft.before(c)
	}
	was := c.snap()
	var prefix, env []string
	if ft.prefix != nil {
		prefix = ft.prefix(c)
	}
	if ft.env != nil {
		env = ft.env(c)
	}
	if ft.prefix != nil {
		// the go command is not to remember in its cache what it could not read
		env = append(env, "GODEBUG=goindex=0")
	}
	var res result
	if ft.run != nil {
		res = ft.run(c)
	} else {
		res = w.BaronEnv(c.conf.dir(c.f), prefix, env, c.conf.args(c.f)...)
	}
	if ft.undo != nil {
		ft.undo(c)
	}
	if prefix != nil && h.straceBroke(res) {
		time.Sleep(time.Second) // what it ran goes on without it
		if ents, _ := os.ReadDir(w.Tmp); len(ents) > 0 {
			for _, e := range ents {
				os.RemoveAll(filepath.Join(w.Tmp, e.Name()))
			}
		}
		if ft.after != nil {
			ft.after(c)
		}
		return
	}
	kind := strings.SplitN(ft.name, ":", 2)[0]
	hit := 1
	if ft.hit != nil {
		hit = ft.hit(c, res)
	}
	h.Eval(ft.name+c.new, hit > 0)
	h.Count("runs hit by: "+kind, min(hit, 1))
	if hit > 0 && res.Code != 0 {
		h.Count("runs which failed by: "+kind, 1)
	}
	after := c.snap()
	d := func() map[string]interface{} {
		return map[string]interface{}{"fault": ft.name, "exit": res.Code, "signal": res.Signal, "output": tail(res.Out+res.Err, 1200)}
	}
	switch {
	case res.Hung:
		c.fail("a run which a fault hits does not end", d())
		return
	case ft.must && res.Code == 0:
		c.fail("a run which cannot succeed ends as if it had", d())
		return
	case crashLine.MatchString(res.Err) && !strings.Contains(res.Err, "fatal error: runtime:"):
		c.fail("a run which a fault hits crashes", d())
		return
	case res.Code == 0 && res.Signal == "":
		if diff := diffSnap(c.s1, after); len(diff) > 0 && ft.before == nil {
			x := d()
			x["files"] = diff
			if p := diff[0][1:]; diff[0][0] == '~' {
				x["difference"] = firstDiff(c.s1[p], after[p])
			}
			c.fail("a run ends as if it had succeeded but its output is not complete", x)
			return
		}
	case !ft.kills && strings.TrimSpace(res.Out+res.Err) == "":
		c.fail("a run fails without a word", d())
		return
	}
	for p, t := range after {
		old, had := was[p]
		new, will := c.s1[p]
		switch {
		case had && t == old, will && t == new && !ft.intact:
		case isPB(p) && !ft.intact:
			// protoc's to write
		case !had && !will && ft.kills && strings.HasPrefix(filepath.Base(p), "."):
			// what a killed process leaves, which no Go tool reads
			h.Count("temporary files left by killed runs", 1)
		default:
			x := d()
			x["path"], x["before"], x["after"], x["complete"] = p, clip(old, 1500), clip(t, 1500), clip(new, 1500)
			c.fail("a run which fails leaves a file neither as it was nor complete", x)
			return
		}
	}
	for p := range was {
		if _, ok := after[p]; !ok {
			x := d()
			x["path"] = p
			c.fail("a run which fails removes a file", x)
			return
		}
	}
	if ents, _ := os.ReadDir(w.Tmp); len(ents) > 0 {
		if !ft.kills && ft.run == nil {
			x := d()
			x["left"] = ents[0].Name()
			c.fail("a run which fails leaves temporary files", x)
			return
		}
		for _, e := range ents {
			os.RemoveAll(filepath.Join(w.Tmp, e.Name()))
		}
	}
	// without the fault the run succeeds and nothing tells of the fault
	if ft.after != nil {
		ft.after(c)
	}
	w.Write(c.f.Path, c.new)
	for p := range after {
		if _, ok := c.s1[p]; !ok && ft.kills {
			os.RemoveAll(filepath.Join(w.Dir, p))
		}
	}
	res = w.Baron(c.conf.dir(c.f), c.conf.args(c.f)...)
	if res.Code != 0 {
		c.fail("after a run which failed, a good one fails", d())
		return
	}
	if diff := diffSnap(c.s1, c.snap()); len(diff) > 0 {
		x := d()
		x["files"] = diff
		if p := diff[0][1:]; diff[0][0] == '~' {
			x["difference"] = firstDiff(c.s1[p], c.snap()[p])
		}
		c.fail("after a run which failed, a good one is not as if there had been none", x)
	}
	h.Count("recoveries", 1)
}

// crashLine tells that the tool itself crashed, rather than one it ran and
// whose words it repeats. That the runtime gives up where its own system calls
// fail is not the tool's.
var crashLine = regexp.MustCompile(`(?m)^(panic: |goroutine 1 \[)`)

var badDefs = []struct {
	name string
	f    func(s string) string
}{
	{"cut off", func(s string) string { return s[:len(s)*2/3] + " message {" }},
	{"no such type", func(s string) string { return s + "\nmessage NoSuchField { NoSuchType a = 1; }\n" }},
	{"no such import", func(s string) string { return s + "\nimport \"no/such.proto\";\n" }},
	{"same field number", func(s string) string {
		return s + "\nmessage TwiceTheSame { string a = 1; string b = 1; }\n"
	}},
	{"not proto", func(s string) string { return "this is no definition" }},
}

func (c *faultCase) faults() []fault {
	var fs []fault
	r, h := c.r, c.h
	for _, b := range badDefs {
		b := b
		fs = append(fs, fault{name: "bad definition: " + b.name, must: true, intact: true, before: func(c *faultCase) { c.w.Write(c.f.Path, b.f(c.new)) }})
	}
	fs = append(fs, fault{name: "bad definition: missing", must: true, intact: true, before: func(c *faultCase) { os.Remove(filepath.Join(c.w.Dir, c.f.Path)) }})
	// a handler file which does not parse
	for _, bad := range []string{"\nfunc (", "\n}", "\npackage again\n", "\n/* open"} {
		bad := bad
		var good string
		fs = append(fs, fault{name: "handlers do not parse: " + bad, must: true,
			before: func(c *faultCase) { good = c.w.Read(c.handler()); c.w.Write(c.handler(), good+bad) },
			after:  func(c *faultCase) { c.w.Write(c.handler(), good) }})
	}
	// tools which are missing, fail, or do nothing
	for _, tool := range []string{"protoc", "protoc-gen-go", "protoc-gen-go-grpc", "go"} {
		tool := tool
		for what, script := range map[string]string{"missing": "", "fails": "echo no >&2; exit 1", "does nothing": "exit 0", "is killed": "kill -9 $$"} {
			what, script := what, script
			if tool != "protoc" && what == "does nothing" || tool == "go" && what == "missing" {
				continue
			}
			fs = append(fs, fault{name: "tool " + what + ": " + tool, must: true, env: func(c *faultCase) []string {
				dir := filepath.Join(c.w.root, "bin-"+tool+"-"+strings.Fields(what)[0])
				must(os.MkdirAll(dir, 0755))
				for _, t := range []string{"protoc", "protoc-gen-go", "protoc-gen-go-grpc", "go", "sh"} {
					p := filepath.Join(dir, t)
					os.Remove(p)
					if t != tool {
						must(os.Symlink(which(t), p))
					} else if script != "" {
						write(p, "#!/bin/sh\n"+script+"\n")
						must(os.Chmod(p, 0755))
					}
				}
				return []string{"PATH=" + dir, "GOROOT=" + goroot()}
			}})
		}
	}
	// what protoc has read or written cannot be read any more
	for _, p := range []string{c.f.Path, strings.TrimSuffix(c.f.Path, ".proto") + ".pb.go", strings.TrimSuffix(c.f.Path, ".proto") + "_grpc.pb.go"} {
		p := filepath.Join(c.w.Dir, p)
		aside := filepath.Join(c.w.root, "aside")
		dir := filepath.Join(c.w.root, "bin-late")
		fs = append(fs, fault{name: "unreadable after protoc: " + strings.TrimPrefix(filepath.Ext(strings.TrimSuffix(p, ".go"))+filepath.Ext(p), "."), must: true, env: func(c *faultCase) []string {
			must(os.RemoveAll(dir))
			must(os.RemoveAll(aside))
			must(os.MkdirAll(dir, 0755))
			c.w.own(dir)
			// reading a directory fails with EISDIR
			write(filepath.Join(dir, "protoc"), "#!/bin/sh\n"+which("protoc")+" \"$@\" || exit\necho x >>"+dir+"/count\n[ $(wc -l <"+dir+"/count) = 2 ] && mv "+p+" "+aside+" && mkdir "+p+"\nexit 0\n")
			must(os.Chmod(filepath.Join(dir, "protoc"), 0755))
			return []string{"PATH=" + dir + ":" + os.Getenv("PATH")}
		}, undo: func(c *faultCase) {
			if exists(aside) {
				must(os.RemoveAll(p))
				must(os.Rename(aside, p))
			} else {
				c.h.Count("protoc ran less than twice", 1)
			}
		}})
	}
	// obstacles where a file is to be written
	gen := c.generated()
	for k := 0; k < h.N(3, 12); k++ {
		p := pick(r, gen)
		if isPB(p) {
			continue
		}
		full := filepath.Join(c.w.Dir, p)
		var saved string
		clear := func(c *faultCase) {
			os.RemoveAll(full)
			if t, ok := c.s0[p]; ok {
				c.w.Write(p, t)
			}
		}
		fs = append(fs, fault{name: "obstacle: directory " + filepath.Base(p), must: true, after: clear,
			before: func(c *faultCase) { saved = c.w.Read(p); _ = saved; os.Remove(full); c.w.Write(p+"/x", "x") }})
	}
	// the disk is full
	for k := 0; k < h.N(3, 12); k++ {
		p := pick(r, gen)
		if isPB(p) || !h.straceWorks(c.w) {
			continue
		}
		for _, call := range []string{"openat:error=ENOSPC", "openat:error=EACCES", "openat:error=EMFILE", "write:error=ENOSPC", "write:error=EIO", "close:error=EIO", "read:error=EIO", "renameat:error=EIO"} {
			fs = append(fs, c.inject(call, "1+", filepath.Join(c.w.Dir, p), false))
		}
		for _, call := range []string{"openat", "write", "close", "renameat", "read"} {
			fs = append(fs, c.inject(call+":signal=KILL", "1+", filepath.Join(c.w.Dir, p), true))
		}
	}
	if h.straceWorks(c.w) {
		// what is there cannot be read
		for _, p := range []string{c.svcDir(), c.svcDir() + "/service", c.svcDir() + "/server", c.handler(), c.svcDir() + "/service/wrapper.go", c.svcDir() + "/cmd"} {
			call := pick(r, []string{"openat:error=EACCES", "openat:error=EMFILE", "newfstatat:error=EIO", "getdents64:error=EIO", "read:error=EIO"})
			fs = append(fs, c.inject(call, "1+", filepath.Join(c.w.Dir, p), false))
		}
		for k := 0; k < h.N(16, 100); k++ {
			call := pick(r, []string{"openat", "write", "close", "renameat", "mkdirat", "read", "newfstatat", "fstat", "getdents64", "pread64"})
			switch r.Intn(3) {
			case 0:
				if call == "close" { // strace would leave it open, and the other end of a pipe waiting
					call = "openat"
				}
				fs = append(fs, c.inject(call+":error="+pick(r, []string{"EIO", "ENOSPC", "EACCES", "ENOMEM"}), fmt.Sprint(1+r.Intn(60)), "", true))
			case 1:
				fs = append(fs, c.inject(call+":signal=KILL", fmt.Sprint(1+r.Intn(60)), "", true))
			default:
				fs = append(fs, c.inject(pick(r, []string{"write", "renameat", "openat", "fchmodat", "fchmod"})+":signal=KILL", fmt.Sprint(1+r.Intn(12)), "", true))
			}
		}
	}
	// the process ends at some time
	for k := 0; k < h.N(12, 100); k++ {
		sig := []syscall.Signal{syscall.SIGKILL, syscall.SIGTERM, syscall.SIGINT}[r.Intn(3)]
		after := time.Duration(r.Intn(140)) * time.Millisecond
		fs = append(fs, fault{name: fmt.Sprintf("signal: %v after %v", sig, after), kills: true,
			run: func(c *faultCase) result { return c.w.interrupted(c.conf.dir(c.f), sig, after, c.conf.args(c.f)...) },
			hit: func(c *faultCase, r result) int {
				if r.Signal != "" {
					return 1
				}
				return 0
			}})
	}
	return fs
}

var injected = regexp.MustCompile(`(?m)^\d+ +(\w+)\(([^\n]*)\(INJECTED\)|^\d+ \+\+\+ killed by SIGKILL`)

func (c *faultCase) inject(call, when, path string, kills bool) fault {
	name := "system call"
	if strings.Contains(call, "KILL") {
		name = "end at a system call"
	}
	where := when
	if path != "" {
		where = filepath.Base(path)
	}
	sys := strings.SplitN(call, ":", 2)[0]
	return fault{name: name + ": " + call + " " + where, kills: kills,
		prefix: func(c *faultCase) []string {
			c.trace = filepath.Join(c.w.root, "fault.out")
			os.Remove(c.trace)
			a := []string{"strace", "-f", "-qq", "-o", c.trace, "-e", "trace=" + sys, "-e", "inject=" + call + ":when=" + when}
			if path != "" {
				a = append(a, "-P", path)
			}
			return a
		},
		hit: func(c *faultCase, r result) int {
			t := read(c.trace)
			n := 0
			for _, m := range injected.FindAllStringSubmatch(t, -1) {
				n++
				if m[1] != "" {
					c.h.Count("system calls failed: "+m[1], 1)
				}
			}
			return n
		},
	}
}

func which(tool string) string {
	for _, d := range filepath.SplitList(os.Getenv("PATH")) {
		if p := filepath.Join(d, tool); exists(p) {
			return p
		}
	}
	return "/nonexistent"
}

var gorootOnce string

func goroot() string {
	buildMu.Lock()
	defer buildMu.Unlock()
	if gorootOnce == "" {
		gorootOnce = strings.TrimSpace(command("/", nil, "", "go", "env", "GOROOT").Out)
	}
	return gorootOnce
}
