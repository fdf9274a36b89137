package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() {
	checks["C02"] = checkDef{
		run:     runC02,
		rule:    "text made from valid files by cutting at any byte, by dropping, doubling, swapping and replacing tokens and bytes, or of random tokens, delivered whole, in halves, byte by byte or with a read error; the parser runs in a process of its own, whose death or silence is the alarm; non-trivial: the text differs from every valid file",
		assumes: []string{"a parse which gives no answer within 60 s (a valid file takes well under a millisecond) does not end"},
	}
	checks["C03"] = checkDef{
		run:     runC03,
		rule:    "histories of parses of valid and damaged files in one process, in several orders, and parses from many goroutines at once under the race detector; each outcome is compared with that of the same text alone in a fresh process; non-trivial: a history of at least two different texts",
		assumes: []string{"the race detector sees conflicting accesses of the schedules which occurred"},
	}
}

var soup = []string{"service", "rpc", "returns", "option", "(", ")", "{", "}", ";", ":", "=", "\"", "'", "\"a\"", "'b'", "/*", "*/", "//",
	"\n", " ", "google.api.http", "get", "post", "body", "additional_bindings", "custom", "kind", "path", "S", "M", "stream", "\\",
	"\x00", "\xff\xfe", "é", "/", "*", "message", "[", "]", ",", "<", ">", "#", "\r\n", "\t", "1", "-1", "(google.api.http)", "/**/", "**/"}

// damage makes an invalid or strange text of valid ones
func damage(r *rand.Rand, toks []string, text string) string {
	switch r.Intn(8) {
	case 0:
		return text[:r.Intn(len(text)+1)]
	case 1: // drop a token
		i := r.Intn(len(toks))
		return strings.Join(append(append([]string{}, toks[:i]...), toks[i+1:]...), " ")
	case 2: // double a token
		i := r.Intn(len(toks))
		return strings.Join(append(append(append([]string{}, toks[:i]...), toks[i]), toks[i:]...), " ")
	case 3: // swap
		c := append([]string{}, toks...)
		i, j := r.Intn(len(c)), r.Intn(len(c))
		c[i], c[j] = c[j], c[i]
		return strings.Join(c, " ")
	case 4: // replace tokens
		c := append([]string{}, toks...)
		for k := 0; k <= r.Intn(3); k++ {
			c[r.Intn(len(c))] = pick(r, soup)
		}
		return strings.Join(c, pick(r, []string{" ", "\n", ""}))
	case 5: // insert bytes
		i := r.Intn(len(text) + 1)
		return text[:i] + pick(r, soup) + text[i:]
	case 6: // drop a range
		i := r.Intn(len(text))
		j := i + r.Intn(len(text)-i)
		return text[:i] + text[j:]
	default:
		var b strings.Builder
		b.WriteString(pick(r, []string{"", "service S {", "service S { rpc A(M) returns (M) {", "service S { rpc A(M) returns (M) { option (google.api.http) = {"}))
		for k := 0; k < r.Intn(40); k++ {
			b.WriteString(pick(r, soup) + pick(r, []string{"", " "}))
		}
		return b.String()
	}
}

func runC02(h *H) {
	r := h.Rand("texts")
	type tcase struct {
		text, reader string
		errAt        int
		cut          bool // cut off within its service: must be refused
	}
	var cases []tcase
	n := h.N(2400, 20000)
	for i := 0; i < n; i++ {
		f := genParseFile(r, i)
		tk := f.tokens(rand.New(rand.NewSource(r.Int63())))
		text := tk.render(i%numLayouts, r)
		if i < h.N(240, 2000) {
			// every cut of it
			start := serviceStart(f)
			for c := 0; c <= len(start); c++ {
				cases = append(cases, tcase{text: start[:c]})
			}
			one := text[:min(len(text), 1500)]
			for c := 0; c < len(one); c++ {
				cases = append(cases, tcase{text: text[:c]})
			}
		}
		if cuts := annotatedCuts(f); len(cuts) > 0 {
			for k := 0; k < 5; k++ {
				cases = append(cases, tcase{text: cuts[r.Intn(len(cuts))], cut: true})
			}
		}
		for k := 0; k < 25; k++ {
			c := tcase{text: damage(r, tk.t, text)}
			switch r.Intn(6) {
			case 0:
				c.reader = "onebyte"
			case 1:
				c.reader = "half"
			case 2:
				c.reader = "dataerr"
			case 3:
				c.reader = "err"
				c.errAt = r.Intn(len(c.text) + 1)
			}
			cases = append(cases, c)
		}
	}
	p := newPool(h.Worker(false), 8)
	defer p.Close()
	seen := map[string]bool{}
	for _, c := range cases {
		seen[c.text] = true
	}
	parallel(len(cases), func(i int) {
		c := cases[i]
		var rep, whole pReply
		err := p.Call(map[string]interface{}{"Op": "parse", "Src": c.text, "Reader": c.reader, "ErrAt": c.errAt}, &rep)
		h.Eval(c.text+"\x00"+c.reader, true)
		if err != nil {
			h.Violation("the parser does not survive an input", map[string]interface{}{"input": c.text, "reader": c.reader, "failure": err.Error()})
			return
		}
		if rep.Err != "" {
			h.Count("refused", 1)
		} else {
			h.Count("accepted", 1)
		}
		if rep.Err == "" && rep.Svc == nil {
			h.Violation("neither a service nor an error", map[string]interface{}{"input": c.text})
		}
		if c.reader == "err" && rep.Err == "" {
			h.Violation("a definition which cannot be read to its end is taken for complete", map[string]interface{}{"input": c.text, "read": c.errAt, "parsed": rep.Svc})
		}
		if c.cut && rep.Err == "" {
			h.Violation("a definition cut off within its service is taken for complete", map[string]interface{}{"input": c.text, "parsed": rep.Svc})
		}
		if c.reader != "" && c.reader != "err" {
			if err := p.Call(map[string]interface{}{"Op": "parse", "Src": c.text}, &whole); err == nil && js(whole) != js(rep) {
				h.Violation("the outcome depends on how the input is delivered", map[string]interface{}{"input": c.text, "reader": c.reader, "whole": whole, "pieces": rep})
			}
			h.Count("delivered in pieces", 1)
		}
		if i%4001 == 7 {
			h.Sample(map[string]string{"input": clip(c.text, 300), "reader": c.reader, "error": rep.Err})
		}
	})
	h.Count("distinct texts", len(seen))
}

// serviceStart is the canonical text from its service on
func serviceStart(f *File) string {
	g := *f
	g.Msgs, g.Enums = nil, nil
	t := g.Text()
	return t[strings.Index(t, "service"):]
}

// annotatedCuts lists the beginnings of the file which end within its service.
func annotatedCuts(f *File) []string {
	g := *f
	g.Msgs, g.Enums = nil, nil
	t := g.Text()
	start := strings.Index(t, "service "+f.Svc.Name)
	open := start + strings.Index(t[start:], "{") + 1
	end := strings.LastIndex(t, "}")
	var rv []string
	for c := open; c <= end; c++ {
		rv = append(rv, t[:c])
	}
	return rv
}

func runC03(h *H) {
	r := h.Rand("histories")
	// The texts: valid files, and damaged ones which end the scan in odd states
	var texts []string
	for i := 0; i < h.N(480, 2400); i++ {
		f := genParseFile(r, i)
		tr := rand.New(rand.NewSource(r.Int63()))
		tk := f.tokens(tr)
		text := tk.render(i%numLayouts, tr)
		texts = append(texts, text)
		texts = append(texts, damage(r, tk.t, text))
		if cuts := annotatedCuts(f); len(cuts) > 0 {
			texts = append(texts, cuts[r.Intn(len(cuts))])
		}
	}
	for _, b := range parseListed {
		texts = append(texts, wrapListed(b))
	}
	for _, b := range parseExotic {
		texts = append(texts, wrapListed(b))
	}
	// alone: a fresh process for each
	alone := make([]string, len(texts))
	bin := h.Worker(false)
	parallel(len(texts), func(i int) {
		w := newProc(bin)
		defer w.Close()
		var rep interface{}
		if err := w.Call(map[string]interface{}{"Op": "parse", "Src": texts[i]}, &rep); err != nil {
			alone[i] = "died"
			return
		}
		alone[i] = js(rep)
		h.Count("reference parses in a process of their own", 1)
	})
	var live []int
	for i, a := range alone {
		if a != "died" { // C02's business
			live = append(live, i)
		}
	}
	// histories
	n := h.N(1600, 20000)
	hist := make([][]int, n)
	for k := range hist {
		for j := 0; j < 2+r.Intn(12); j++ {
			hist[k] = append(hist[k], live[r.Intn(len(live))])
		}
	}
	p := newPool(bin, 8)
	parallel(n, func(k int) {
		var srcs []string
		for _, i := range hist[k] {
			srcs = append(srcs, texts[i])
		}
		var reps []interface{}
		if err := p.Call(map[string]interface{}{"Op": "seq", "Srcs": srcs}, &reps); err != nil {
			h.Violation("a parse after others does not return", map[string]interface{}{"history": srcs, "failure": err.Error()})
			return
		}
		h.Eval("seq "+fmt.Sprint(hist[k]), true)
		h.Count("parses in histories", len(reps))
		for j, rep := range reps {
			if got := js(rep); got != alone[hist[k][j]] {
				h.Violation("the outcome of a parse depends on earlier ones", map[string]interface{}{
					"history": srcs[:j+1], "alone": clip(alone[hist[k][j]], 1500), "after the others": clip(got, 1500)})
			}
		}
		if k < 2 {
			h.Sample(map[string]interface{}{"history": clip(js(srcs[:2]), 500), "outcomes": clip(js(reps[:2]), 300)})
		}
	})
	p.Close()
	// concurrency
	rbin := h.Worker(true)
	rounds := h.N(12, 60)
	for k := 0; k < rounds; k++ {
		var idx []int
		var srcs []string
		for j := 0; j < 60; j++ {
			i := live[r.Intn(len(live))]
			idx = append(idx, i)
			srcs = append(srcs, texts[i])
		}
		w := newProc(rbin, "GORACE=halt_on_error=1 exitcode=66")
		var res [][]string
		err := w.Call(map[string]interface{}{"Op": "conc", "Srcs": srcs, "Threads": 8, "Rounds": 4}, &res)
		if err != nil {
			h.Violation("concurrent parses fail or race", map[string]interface{}{"texts": srcs[:4], "failure": err.Error()})
			continue
		}
		w.Close()
		h.Eval("conc "+fmt.Sprint(idx), true)
		for t := range res {
			h.Count("concurrent parses", len(res[t])*4)
			for j := range res[t] {
				var v interface{}
				if jsonUnmarshal(res[t][j], &v) != nil || js(v) != alone[idx[j]] {
					h.Violation("the outcome of a parse depends on concurrent ones", map[string]interface{}{
						"text": srcs[j], "alone": alone[idx[j]], "concurrently": clip(res[t][j], 1500)})
				}
			}
		}
	}
	// the whole definition step, concurrently
	goSrc := fmt.Sprintf("package p\n\n%s", tinyPB)
	for k := 0; k < h.N(4, 40); k++ {
		w := newProc(rbin, "GORACE=halt_on_error=1 exitcode=66")
		var res []string
		err := w.Call(map[string]interface{}{"Op": "concdef", "Threads": 8, "Go": map[string]string{"a.pb.go": goSrc},
			"Proto": map[string]string{"a.proto": wrapListed(parseListed[6])}}, &res)
		if err != nil {
			h.Violation("concurrent definitions fail or race", map[string]interface{}{"failure": err.Error()})
			continue
		}
		w.Close()
		h.Eval(fmt.Sprint("concdef ", k), true)
		for _, x := range res {
			h.Count("concurrent definitions", 1)
			if x != res[0] || !strings.Contains(x, `"Service":"S"`) {
				h.Violation("concurrent definitions differ", map[string]interface{}{"one": res[0], "other": x})
			}
		}
	}
}

const tinyPB = "import context \"context\"\n\ntype M struct {\n\tS string `protobuf:\"bytes,1,opt,name=s,proto3\" json:\"s,omitempty\"`\n}\n\ntype SServer interface {\n\tA(context.Context, *M) (*M, error)\n}\n"
