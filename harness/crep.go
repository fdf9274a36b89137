package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// What a run says of files: the markers which --help lists.

func init() {
	checks["C25"] = checkDef{
		run:     func(h *H) { h.runReports() },
		rule:    "one run in a history of edits, deletions and option changes, every line of whose report is compared with what the file trees before and after show. Non-trivial: every distinct handler file before and after",
		assumes: []string{"the log is logfmt text, as it is where no terminal is"},
	}
}

var markRE = regexp.MustCompile(`(?m)^time="[^"]*" level=info msg="(\*>|->|=>|>>) ((?:[^"\\]|\\.)*)"`)

// reportOf is what a run says of each file.
func reportOf(dir, out string) map[string][]string {
	rv := map[string][]string{}
	for _, m := range markRE.FindAllStringSubmatch(out, -1) {
		p := strings.NewReplacer(`\"`, `"`, `\\`, `\`).Replace(m[2])
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, p)
		}
		rv[filepath.Clean(p)] = append(rv[filepath.Clean(p)], m[1])
	}
	return rv
}

func (h *H) runReports() {
	cases, rounds := h.N(24, 80), h.N(7, 20)
	w := h.newWS()
	defer w.Close()
	r := h.Rand("reports")
	var cs []*histCase
	for i := 0; i < cases; i++ {
		f := genFile(r, fmt.Sprintf("c%d", i), histOpts)
		f.number(i)
		c := &histCase{h: h, w: w, r: rand.New(rand.NewSource(r.Int63())), f: f, n: i, extra: map[string]string{}, ever: map[string]bool{},
			conf: genConf{transport: transports[i%3], sub: r.Intn(4) == 0}}
		if r.Intn(3) == 0 {
			c.conf.svcout = "./" + filepath.Dir(f.Path) + "out/here"
			if c.conf.sub {
				c.conf.svcout = "../" + filepath.Dir(f.Path) + "out/here"
			}
		}
		if r.Intn(3) == 0 {
			// a file without a service
			x := &File{Path: filepath.Join(filepath.Dir(f.Path), "more.types.proto"), Pkg: f.Pkg, GoPkg: f.GoPkg}
			x.Msgs = []*Msg{{Name: "MoreOfIt", Fields: []*Field{{Name: "key", Type: "string", Kind: "string", Num: 1}}}}
			c.conf.more = []*File{x}
		}
		cs = append(cs, c)
	}
	parallel(len(cs), func(i int) {
		c := cs[i]
		for round := 0; round < rounds && !c.dead; round++ {
			c.conf.client = c.r.Intn(3) == 0
			c.conf.again = c.r.Intn(5) == 0
			if c.conf.again {
				h.Count("runs with a file named twice", 1)
			}
			if round > 0 {
				c.beforeReport()
			}
			c.reported()
			if round == 0 && c.conf.svcout == "" && !c.dead {
				c.moveAway()
			}
		}
	})
}

// beforeReport changes some of what a run finds.
func (c *histCase) beforeReport() {
	r := c.r
	for j := 0; j < r.Intn(3); j++ {
		c.editProto()
	}
	if src := c.w.Read(c.handler()); src != "" {
		if r.Intn(2) == 0 {
			src = c.editHandlers(src)
		}
		for j := 0; j < r.Intn(4); j++ {
			src = c.editCode(src)
		}
		c.w.Write(c.handler(), src)
	}
	for j := 0; j < r.Intn(3); j++ {
		c.editOther()
	}
	if r.Intn(3) == 0 {
		// something is gone
		var all []string
		for p := range c.generated() {
			if c.w.Exists(p) {
				all = append(all, p)
			}
		}
		sort.Strings(all)
		for j := 0; j < 1+r.Intn(3); j++ {
			p := pick(r, all)
			c.note("%s is removed", p)
			os.Remove(filepath.Join(c.w.Dir, p))
		}
	}
	if r.Intn(4) == 0 {
		p := filepath.Join(c.svcDir(), "server/server.go")
		c.w.Write(p, c.w.Read(p)+"\n// edited\n")
		c.note("%s is edited", p)
	}
}

// generated are the files a run may generate, and whether the author may edit
// them.
func (c *histCase) generated() map[string]bool {
	n, rv := c.f.lower(), map[string]bool{}
	for _, x := range append([]*File{c.f}, c.conf.more...) {
		base := strings.TrimSuffix(x.Path, ".proto")
		rv[base+".pb.go"] = false
		rv[base+"_grpc.pb.go"] = false
	}
	rv[strings.TrimSuffix(c.f.Path, ".proto")+".pb.baron.go"] = false
	for _, p := range []string{"service/service.go", "service/wrapper.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "cmd/" + n + "/main.go", "cmd/" + n + "-client/main.go"} {
		rv[filepath.Join(c.svcDir(), p)] = true
	}
	rv[filepath.Join(c.svcDir(), "server/server.go")] = false
	return rv
}

func (c *histCase) reported() {
	h, w := c.h, c.w
	for _, x := range append([]*File{c.f}, c.conf.more...) {
		w.Write(x.Path, x.Text())
	}
	files := c.generated()
	before := map[string]string{}
	had := map[string]bool{}
	for p := range files {
		before[p], had[p] = w.Read(p), w.Exists(p)
	}
	c.note("-- baron --")
	res := w.Baron(c.conf.dir(c.f), c.conf.args(c.f)...)
	out := res.Out + res.Err
	h.Eval(before[c.handler()]+"\n=>\n"+w.Read(c.handler()), had[c.handler()])
	d := map[string]interface{}{"output": tail(out, 3000)}
	if res.Code != 0 {
		c.fail("regeneration fails", d)
		return
	}
	said := reportOf(filepath.Join(w.Dir, c.conf.dir(c.f)), out)
	for p, edited := range files {
		full := filepath.Join(w.Dir, p)
		got := strings.Join(said[full], " ")
		delete(said, full)
		after := w.Read(p)
		want := ""
		switch {
		case !w.Exists(p):
		case !had[p]:
			want = "->"
		case strings.HasSuffix(p, "-client/main.go") && !c.conf.client:
			if after != before[p] {
				d["path"], d["before"], d["after"] = p, before[p], after
				c.fail("a client program which is not asked for is changed", d)
				return
			}
		case !edited:
			want = "*>"
		case norm(gofmt(before[p])) == norm(after):
			want = "=>"
		default:
			want = ">>"
		}
		h.Count("files reported: "+map[string]string{"": "nothing said", "->": "created", "*>": "overridden", "=>": "no change", ">>": "modified"}[want], 1)
		if got != want {
			d["path"], d["said"], d["true"] = p, got, want
			if edited {
				d["before"], d["after"] = before[p], after
			}
			c.fail(fmt.Sprintf("the report says %q of a file where %q is true", got, want), d)
			return
		}
	}
	for p, m := range said {
		d["path"], d["said"] = p, m
		c.fail("the report speaks of a file which is not the run's", d)
		return
	}
	// what is taken away or added is named
	a, b := funcs(before[c.handler()]), funcs(w.Read(c.handler()))
	if !had[c.handler()] {
		return
	}
	for name := range a {
		short := name[strings.LastIndex(name, " ")+1:]
		if a[name] > b[name] && !regexp.MustCompile(`\b`+short+`\b`).MatchString(out) {
			d["function"] = name
			c.fail("a function is removed and not named", d)
			return
		}
		if a[name] > b[name] {
			h.Count("removed functions named", 1)
		}
	}
	for name := range b {
		short := name[strings.LastIndex(name, " ")+1:]
		if b[name] > a[name] && !regexp.MustCompile(`\b`+short+`\b`).MatchString(out) {
			d["function"] = name
			c.fail("a handler is added and not named", d)
			return
		}
		if b[name] > a[name] {
			h.Count("added handlers named", 1)
		}
	}
}

// funcs counts the functions of a source by name.
func funcs(src string) map[string]int {
	rv := map[string]int{}
	_, segs, _ := split(src)
	for _, s := range segs {
		if s.fn {
			rv[s.name]++
		}
	}
	return rv
}
