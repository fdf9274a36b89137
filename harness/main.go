// Command harness decides one property of baron by running the real code under
// generated workloads and judging what monitors recorded of the executions.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type checkDef struct {
	run  func(h *H)
	rule string
	// what the check assumes or trusts
	assumes []string
}

var checks = map[string]checkDef{}

// H is the state of one run of one check.
type H struct {
	Prop  string
	Tier  string
	Seed  int64
	Repo  string
	Verif string
	W     string // scratch directory of this run, removed by check.sh
	start time.Time

	mu         sync.Mutex
	evals      int
	distinct   map[uint64]bool
	samples    []interface{}
	counters   map[string]int
	known      map[string]string // id -> text, for this property
	knownHit   map[string]string
	violations int
	vioKeys    map[string]bool
	baronBin   string
	workerBin  string
}

func (h *H) Thorough() bool { return h.Tier == "thorough" }

// N is q in the quick tier and t in the thorough one.
func (h *H) N(q, t int) int {
	if h.Thorough() {
		return t
	}
	return q
}

// Rand returns a generator for the named part of the check.
func (h *H) Rand(name string) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s/%s/%d", h.Prop, name, h.Seed)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// Eval counts one evaluated case; key identifies it, nontrivial by the rule.
func (h *H) Eval(key string, nontrivial bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.evals++
	if nontrivial {
		f := fnv.New64a()
		f.Write([]byte(key))
		h.distinct[f.Sum64()] = true
	}
}

func (h *H) Count(name string, n int) {
	h.mu.Lock()
	h.counters[name] += n
	h.mu.Unlock()
}

func (h *H) Sample(v interface{}) {
	h.mu.Lock()
	if len(h.samples) < 6 {
		h.samples = append(h.samples, v)
	}
	h.mu.Unlock()
}

// Violation reports that the property does not hold. key identifies what fails:
// one report is made for each key.
func (h *H) Violation(key string, detail interface{}) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.vioKeys[key] {
		return
	}
	h.vioKeys[key] = true
	h.violations++
	if h.violations > 8 {
		return
	}
	dir := filepath.Join(h.Verif, "evidence", "replay", h.Prop)
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", h.Tier, h.Seed, h.violations))
	buf, _ := json.MarshalIndent(map[string]interface{}{
		"property": h.Prop, "seed": h.Seed, "tier": h.Tier, "key": key, "detail": detail,
	}, "", " ")
	os.WriteFile(path, append(buf, '\n'), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, path)
	short := string(buf)
	if lim := 3000; os.Getenv("VERIF_BRIEF") != "" && len(short) > 700 {
		short = short[:700] + "..."
	} else if len(short) > lim {
		short = short[:lim] + "..."
	}
	fmt.Fprintln(os.Stderr, short)
}

// Known reports that the known finding id still fails. A finding which the
// committed file does not list is a violation.
func (h *H) Known(id, what string) {
	h.mu.Lock()
	_, ok := h.known[id]
	if ok {
		h.knownHit[id] = what
	}
	h.mu.Unlock()
	if !ok {
		h.Violation("unlisted finding "+id, what)
	}
}

func (h *H) loadKnown() {
	h.known = map[string]string{}
	h.knownHit = map[string]string{}
	f, err := os.Open(filepath.Join(h.Verif, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		// known: property=C08 id=empty-path-value text
		f := strings.Fields(sc.Text())
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+h.Prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		h.known[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
}

// fatal ends the run as an error of the check: it decides nothing.
func (h *H) fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

func (h *H) finish(def checkDef) {
	h.mu.Lock()
	defer h.mu.Unlock()
	ids := make([]string, 0)
	for id := range h.knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", h.Prop, id, h.known[id])
	}
	cov := map[string]interface{}{
		"evaluations":         h.evals,
		"distinct_nontrivial": len(h.distinct),
		"rule":                def.rule,
		"samples":             h.samples,
		"observed":            h.counters,
		"known_findings_seen": ids,
	}
	ev := map[string]interface{}{
		"property": h.Prop, "tier": h.Tier, "seed": h.Seed, "level": "exploration",
		"coverage": cov, "assumptions": def.assumes,
		"wall_s": time.Since(h.start).Seconds(), "violations": h.violations,
	}
	buf, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		h.fatal("evidence: %v", err)
	}
	dir := filepath.Join(h.Verif, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, h.Prop+".json"), append(buf, '\n'), 0644); err != nil {
		h.fatal("evidence: %v", err)
	}
	fmt.Printf("%s %s seed=%d evaluations=%d distinct=%d violations=%d known=%d wall=%.1fs\n",
		h.Prop, h.Tier, h.Seed, h.evals, len(h.distinct), h.violations, len(ids), time.Since(h.start).Seconds())
	fmt.Printf("observed %s\n", js(h.counters))
	if h.violations > 0 {
		os.Exit(1)
	}
	if h.evals == 0 || len(h.distinct) < 2 {
		fmt.Fprintln(os.Stderr, "check error: nothing was evaluated")
		os.Exit(2)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness PROPERTY")
		os.Exit(2)
	}
	def, ok := checks[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", os.Args[1])
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	h := &H{
		Prop: os.Args[1], Tier: os.Getenv("VERIF_TIER"), Seed: seed,
		Repo: os.Getenv("BARON_REPO"), Verif: os.Getenv("VERIF_DIR"), W: os.Getenv("VERIF_W"),
		start: time.Now(), distinct: map[uint64]bool{}, counters: map[string]int{}, vioKeys: map[string]bool{},
	}
	if h.Tier != "thorough" {
		h.Tier = "quick"
	}
	h.loadKnown()
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "check error: %v\n%s", r, debug.Stack())
				if h.violations > 0 {
					os.Exit(1)
				}
				os.Exit(2)
			}
		}()
		def.run(h)
	}()
	h.finish(def)
}
