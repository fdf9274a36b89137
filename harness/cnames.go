package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	checks["C18"] = checkDef{
		run:     runC18,
		rule:    "every legal protobuf identifier of up to n letters over {a, B, 1, _} and generated longer ones; the Go name baron computes, and the one in the definition it derives, are compared with the name protoc-gen-go gives the same field, message and rpc; non-trivial: every identifier",
		assumes: []string{"protoc-gen-go v1.25.0 and protoc-gen-go-grpc v1.0.1, the versions baron asks for"},
	}
	checks["C19"] = checkDef{
		run:     runC19,
		rule:    "a path template of up to eight segments and a URL path made of it with values for its parameters, or of another number of segments; the parameters found are compared with the values; non-trivial: a template with a parameter",
		assumes: []string{"values contain no '/', which separates segments"},
	}
}

func runC18(h *H) {
	var names []string
	seen := map[string]bool{}
	add := func(s string) {
		// XXX_ is reserved in Go for what is no field
		if !seen[s] && s != "" && !strings.HasPrefix(goCamel(s), "XXX_") && !(s[0] >= '0' && s[0] <= '9') {
			seen[s] = true
			names = append(names, s)
		}
	}
	var enum func(s string, n int)
	enum = func(s string, n int) {
		add(s)
		if n == 0 {
			return
		}
		for _, c := range "aB1_" {
			enum(s+string(c), n-1)
		}
	}
	enum("", h.N(5, 7))
	r := h.Rand("names")
	for i := 0; i < h.N(1500, 10000); i++ {
		var b strings.Builder
		for j := 0; j < 1+r.Intn(5); j++ {
			b.WriteString(pick(r, []string{"", "_", "__", "_1", "2", "X", "_x"}))
			b.WriteString(pick(r, append(words, "HTTP", "Id", "ID", "uRL", "x", "Y", "XXX", "get", "Get", "reset", "string", "descriptor")))
		}
		b.WriteString(pick(r, []string{"", "", "_", "1", "_2", "__"}))
		add(b.String())
	}
	for _, s := range append(tricky, "reset", "string", "descriptor", "proto_message", "marshal", "unmarshal", "_", "__", "_a", "a_", "X", "_X", "x_y", "xY", "x_Y") {
		add(s)
	}
	w := newProc(h.Worker(false))
	defer w.Close()
	const batch = 2000
	for lo := 0; lo < len(names); lo += batch {
		hi := min(lo+batch, len(names))
		h.nameBatch(w, names[lo:hi], lo)
	}
}

func (h *H) nameBatch(w *proc, names []string, k int) {
	dir := filepath.Join(h.W, "names", fmt.Sprint(k))
	var b strings.Builder
	b.WriteString("syntax = \"proto3\";\npackage n;\noption go_package = \"scratch/n\";\n")
	for i, n := range names {
		// a field, a message nested in one of its own and an rpc of this name
		fmt.Fprintf(&b, "message ZZ%d { string %s = 1; }\n", i, n)
	}
	// messages within others, whose Go names are made of all the names
	var nested []string
	for i, n := range names {
		outer := fmt.Sprintf([]string{"ZN%d", "zN%d", "ZN%d_", "zn_%d"}[i%4], i)
		if i%3 == 0 {
			mid := []string{"q", "Q", "_q", "q1"}[i/3%4]
			fmt.Fprintf(&b, "message %s { message %s { message %s { } } }\n", outer, mid, n)
			nested = append(nested, outer+"."+mid+"."+n)
		} else {
			fmt.Fprintf(&b, "message %s { message %s { } }\n", outer, n)
			nested = append(nested, outer+"."+n)
		}
	}
	// Rpcs of one Go name cannot be in one service
	used := map[string]bool{}
	var rpcs []string
	for _, n := range names {
		if g := goCamel(n); !used[g] {
			used[g] = true
			rpcs = append(rpcs, n)
		}
	}
	b.WriteString("service ZS {\n")
	for _, n := range rpcs {
		fmt.Fprintf(&b, "rpc %s(ZZ0) returns (ZZ1);\n", n)
	}
	b.WriteString("}\n")
	write(filepath.Join(dir, "n.proto"), b.String())
	r := command(dir, nil, "", "protoc", "-I"+dir, "--go_out=paths=source_relative:.", "--go-grpc_out=paths=source_relative:.", "n.proto")
	if r.Code != 0 {
		panic(clip(r.Err, 2000))
	}
	src, grpc := read(filepath.Join(dir, "n.pb.go")), read(filepath.Join(dir, "n_grpc.pb.go"))
	want := map[string]string{}
	for _, m := range regexp.MustCompile("(?m)^\\t(\\w+) +string +`protobuf:\"bytes,1,opt,name=(\\w+)").FindAllStringSubmatch(src, -1) {
		want[m[2]] = m[1]
	}
	var got []string
	if err := w.Call(map[string]interface{}{"Op": "camel", "Names": names}, &got); err != nil || len(got) != len(names) {
		h.Violation("naming does not return", fmt.Sprint(err))
		return
	}
	wantMsg := map[string]string{}
	for _, m := range regexp.MustCompile(`\(\*(\w+)\)\(nil\),\s+// \d+: n\.([\w.]+)`).FindAllStringSubmatch(src, -1) {
		wantMsg[m[2]] = m[1]
	}
	var gotMsg []string
	if err := w.Call(map[string]interface{}{"Op": "camel", "Names": nested}, &gotMsg); err != nil || len(gotMsg) != len(nested) {
		h.Violation("naming does not return", fmt.Sprint(err))
		return
	}
	for i, n := range nested {
		g, ok := wantMsg[n]
		if !ok {
			panic("no Go name of message " + n)
		}
		h.Count("names of nested messages compared", 1)
		if gotMsg[i] != g {
			h.Violation("the Go name of a nested message differs from protoc-gen-go's", map[string]string{"name": n, "baron": gotMsg[i], "protoc-gen-go": g})
		}
	}
	for i, n := range names {
		g, ok := want[n]
		if !ok {
			panic("no Go name of " + n)
		}
		h.Eval(n, true)
		if got[i] != g && got[i]+"_" != g {
			h.Violation("a Go name differs from protoc-gen-go's", map[string]string{"name": n, "baron": got[i], "protoc-gen-go": g})
		}
	}
	// what the definition says
	var rep dReply
	err := w.Call(map[string]interface{}{"Op": "define", "Go": map[string]string{"n.pb.go": src, "n_grpc.pb.go": grpc},
		"Proto": map[string]string{"n.proto": b.String()}}, &rep)
	if err != nil || rep.Err != "" || rep.Def == nil {
		h.Violation("a definition with these names is refused", map[string]string{"error": fmt.Sprint(err, rep.Err), "file": clip(b.String(), 3000)})
		return
	}
	found := 0
	for _, m := range rep.Def.Messages {
		for _, f := range m.Fields {
			if g, ok := want[f.PB]; !ok || g != f.Name {
				h.Violation("a derived field name differs from protoc-gen-go's", map[string]string{"name": f.PB, "derived": f.Name, "protoc-gen-go": g})
			}
			found++
		}
	}
	if found != len(names) {
		h.Violation("fields are missing in the definition", map[string]int{"declared": len(names), "derived": found})
	}
	meth := map[string]bool{}
	for _, m := range rep.Def.Methods {
		meth[m.Name] = true
	}
	for _, n := range rpcs {
		if !strings.Contains(grpc, "\n\t"+goCamel(n)+"(context.Context") {
			panic("rpc " + n + " is not in the Go code")
		}
		if !meth[goCamel(n)] {
			h.Violation("an rpc is missing in the definition", map[string]string{"name": n})
		}
	}
	h.Count("field names of definitions", found)
	h.Count("rpc names of definitions", len(rpcs))
	h.Sample(map[string]string{"name": names[len(names)/2], "go": got[len(names)/2]})
}

func runC19(h *H) {
	r := h.Rand("paths")
	type pcase struct {
		tmpl, url string
		want      map[string]string // nil: the lengths differ
	}
	var cases []pcase
	var urls [][2]string
	segs := []string{"v1", "a", "sum", "x-y", "x.y", "%20", "日本", "a:b", "-", "~", "0"}
	vals := []string{"1", "-5", "hello", "a%2Fb", "a b", "ü", "{x}", "a.b", "3.14", "true", "", "%", "&=?"}
	n := h.N(20000, 400000)
	for i := 0; i < n; i++ {
		k := 1 + r.Intn(8)
		var t, u []string
		want := map[string]string{}
		used := map[string]bool{}
		for j := 0; j < k; j++ {
			if r.Intn(2) == 0 {
				p := ident(r, used, false)
				v := pick(r, vals)
				if v == "" && j == k-1 {
					v = "z" // an empty last segment is a trailing slash
				}
				t, u = append(t, "{"+p+"}"), append(u, v)
				want[p] = v
				continue
			}
			s := pick(r, segs)
			t, u = append(t, s), append(u, s)
		}
		c := pcase{tmpl: "/" + strings.Join(t, "/"), url: "/" + strings.Join(u, "/"), want: want}
		switch r.Intn(8) {
		case 0:
			c.url += "/"
		case 1:
			c.tmpl += "/"
		case 2:
			c.url += "/more"
			c.want = nil
		case 3:
			if k > 1 && u[k-2] != "" {
				c.url = "/" + strings.Join(u[:k-1], "/")
				c.want = nil
			}
		}
		cases = append(cases, c)
		urls = append(urls, [2]string{c.url, c.tmpl})
	}
	w := newProc(h.Worker(false))
	defer w.Close()
	type res struct {
		Params map[string]string
		Map    map[string]int
		Err    string
	}
	for lo := 0; lo < n; lo += 5000 {
		hi := min(lo+5000, n)
		var rep []res
		if err := w.Call(map[string]interface{}{"Op": "pathparams", "URLs": urls[lo:hi]}, &rep); err != nil {
			h.Violation("finding path parameters does not return", err.Error())
			return
		}
		for i, x := range rep {
			c := cases[lo+i]
			h.Eval(c.tmpl+" "+c.url, strings.Contains(c.tmpl, "{"))
			switch {
			case c.want == nil && x.Err == "":
				h.Violation("a path of another length is taken to match", map[string]interface{}{"template": c.tmpl, "path": c.url, "params": x.Params})
			case c.want != nil && (x.Err != "" || js(x.Params) != js(c.want)):
				h.Violation("path parameters differ from the values of the path", map[string]interface{}{"template": c.tmpl, "path": c.url, "want": c.want, "got": x.Params, "error": x.Err})
			case c.want == nil:
				h.Count("mismatches refused", 1)
			}
			// positions
			parts := strings.Split(c.tmpl, "/")
			np := 0
			for idx, p := range parts {
				if strings.HasPrefix(p, "{") {
					np++
					if x.Map[strings.Trim(p, "{}")] != idx {
						h.Violation("a parameter is located at another segment", map[string]interface{}{"template": c.tmpl, "map": x.Map})
					}
				}
			}
			if np != len(x.Map) {
				h.Violation("parameters which the template does not have", map[string]interface{}{"template": c.tmpl, "map": x.Map})
			}
			h.Count("parameters", np)
			if i < 3 {
				h.Sample(map[string]interface{}{"template": c.tmpl, "path": c.url, "params": x.Params, "error": x.Err})
			}
		}
	}
	// arbitrary strings: an answer for each
	var wild [][2]string
	for i := 0; i < h.N(20000, 400000); i++ {
		wild = append(wild, [2]string{wildPath(r), wildPath(r)})
	}
	var rep []res
	if err := w.Call(map[string]interface{}{"Op": "pathparams", "URLs": wild}, &rep); err != nil {
		h.Violation("finding path parameters does not return", map[string]string{"failure": err.Error()})
		return
	}
	for _, u := range wild {
		h.Eval(url.PathEscape(u[0])+" "+u[1], strings.Contains(u[1], "{"))
	}
	h.Count("arbitrary strings answered", len(rep))
}

func wildPath(r *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < r.Intn(10); i++ {
		b.WriteString(pick(r, []string{"/", "/", "{", "}", "{a}", "{b}", "a", "v1", "//", "{a.b}", "{}", "=", "*"}))
	}
	return b.String()
}
