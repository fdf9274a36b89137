package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// parallel runs f(0..n-1) on as many goroutines as there are cores.
func parallel(n int, f func(i int)) { parallelN(n, runtime.NumCPU(), f) }

func parallelN(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	var mu sync.Mutex
	var failure interface{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				func() {
					defer func() {
						if r := recover(); r != nil {
							buf := make([]byte, 4096)
							buf = buf[:runtime.Stack(buf, false)]
							mu.Lock()
							failure = fmt.Sprintf("%v\n%s", r, buf)
							mu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	if failure != nil {
		panic(failure)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func write(path, content string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(ioutil.WriteFile(path, []byte(content), 0644))
}

func read(path string) string {
	buf, err := ioutil.ReadFile(path)
	if err != nil {
		return ""
	}
	return string(buf)
}

func exists(path string) bool { _, err := os.Lstat(path); return err == nil }

func js(v interface{}) string {
	buf, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(buf)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// tail is the end of s
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// snapshot maps each path under dir, relative to it, to its content (a
// directory to "<dir>", a symlink to "<link>target").
func snapshot(dir string) map[string]string {
	rv := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		switch {
		case fi.IsDir():
			rv[rel] = "<dir>"
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			rv[rel] = "<link>" + t
		case !fi.Mode().IsRegular():
			rv[rel] = "<" + fi.Mode().String() + ">"
		default:
			buf, _ := ioutil.ReadFile(p)
			rv[rel] = string(buf)
		}
		return nil
	})
	return rv
}

// diffSnap lists the paths which differ between two snapshots.
func diffSnap(a, b map[string]string) []string {
	var rv []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			rv = append(rv, "-"+k)
		} else if v != w {
			rv = append(rv, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			rv = append(rv, "+"+k)
		}
	}
	sort.Strings(rv)
	return rv
}

func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		x, y := "<end>", "<end>"
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q / %q", i+1, x, y)
		}
	}
	return ""
}

// command runs a program to its end. A watchdog far above any real duration
// ends one which hangs: hung is then true.
type result struct {
	Code   int
	Out    string
	Err    string
	Hung   bool
	Signal string
}

func command(dir string, env []string, stdin string, name string, args ...string) result {
	return commandT(10*time.Minute, dir, env, stdin, name, args...)
}

func commandT(limit time.Duration, dir string, env []string, stdin string, name string, args ...string) result {
	return commandX(limit, nil, dir, env, stdin, name, args...)
}

func commandX(limit time.Duration, attr *syscall.SysProcAttr, dir string, env []string, stdin string, name string, args ...string) result {
	cmd := exec.Command(name, args...)
	a := syscall.SysProcAttr{}
	if attr != nil {
		a = *attr
	}
	a.Setpgid = true
	cmd.SysProcAttr = &a
	cmd.WaitDelay = 5 * time.Second // what it started may outlive it
	cmd.Dir = dir
	if env != nil {
		cmd.Env = env
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Stdin = strings.NewReader(stdin)
	if err := cmd.Start(); err != nil {
		return result{Code: -1, Err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var r result
	select {
	case <-done:
	case <-time.After(limit):
		r.Hung = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	r.Out, r.Err = out.String(), errb.String()
	r.Code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
	}
	return r
}

// --- building ---

var buildMu sync.Mutex

// Baron builds the command line tool from the repository's working tree.
func (h *H) Baron() string {
	buildMu.Lock()
	defer buildMu.Unlock()
	if h.baronBin != "" {
		return h.baronBin
	}
	bin := filepath.Join(h.W, "bin", "baron")
	// -modfile leaves the repository's go.mod and go.sum as they are
	mod := filepath.Join(h.W, "baron.mod")
	write(mod, read(filepath.Join(h.Repo, "go.mod")))
	write(filepath.Join(h.W, "baron.sum"), read(filepath.Join(h.Repo, "go.sum")))
	r := command(h.Repo, nil, "", "go", "build", "-modfile", mod, "-ldflags", "-X main.version=verif-version -X main.date=verif-date", "-o", bin, "./cmd/baron")
	if r.Code != 0 {
		h.fatal("cannot build baron: %s%s", r.Out, r.Err)
	}
	h.baronBin = bin
	return bin
}

// Worker builds the program which runs baron's packages.
func (h *H) Worker(race bool) string {
	buildMu.Lock()
	defer buildMu.Unlock()
	dir := filepath.Join(h.W, "worker")
	bin := filepath.Join(h.W, "bin", fmt.Sprintf("worker-%v", race))
	if exists(bin) {
		return bin
	}
	write(filepath.Join(dir, "main.go"), read(filepath.Join(h.Verif, "worker", "main.go")))
	mod := read(filepath.Join(h.Repo, "go.mod"))
	mod = strings.Replace(mod, "module github.com/teamlint/baron", "module verif/worker", 1)
	mod += "\nrequire github.com/teamlint/baron v0.0.0\nreplace github.com/teamlint/baron => " + h.Repo + "\n"
	write(filepath.Join(dir, "go.mod"), mod)
	write(filepath.Join(dir, "go.sum"), read(filepath.Join(h.Repo, "go.sum")))
	args := []string{"build", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	r := command(dir, nil, "", "go", append(args, ".")...)
	if r.Code != 0 {
		h.fatal("cannot build the worker: %s%s", r.Out, r.Err)
	}
	return bin
}

// proc is a running worker
type proc struct {
	bin string
	env []string
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *syncBuffer
}

type syncBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuffer) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuffer) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func newProc(bin string, env ...string) *proc { return &proc{bin: bin, env: env} }

func (p *proc) start() {
	p.cmd = exec.Command(p.bin)
	p.cmd.Env = append(os.Environ(), p.env...)
	p.err = &syncBuffer{}
	p.cmd.Stderr = p.err
	var err error
	p.in, err = p.cmd.StdinPipe()
	must(err)
	out, err := p.cmd.StdoutPipe()
	must(err)
	p.out = bufio.NewReaderSize(out, 1<<20)
	must(p.cmd.Start())
}

func (p *proc) Close() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Wait()
		p.cmd = nil
	}
}

// crash is the error of a call which the worker did not survive.
type crash struct{ what, stderr string }

func (c crash) Error() string { return c.what + ": " + c.stderr }

const watchdog = 60 * time.Second

// Call makes a request. A crash or a hang of the worker is returned as a crash
// and the next call starts a new worker.
func (p *proc) Call(q map[string]interface{}, reply interface{}) error {
	if p.cmd == nil {
		p.start()
	}
	buf, err := json.Marshal(q)
	must(err)
	type line struct {
		b   []byte
		err error
	}
	ch := make(chan line, 1)
	go func() {
		p.in.Write(append(buf, '\n'))
		b, err := p.out.ReadBytes('\n')
		ch <- line{b, err}
	}()
	select {
	case l := <-ch:
		if l.err != nil {
			p.cmd.Wait()
			p.cmd = nil
			return crash{"the process died", clip(p.err.String(), 2000)}
		}
		if reply == nil {
			return nil
		}
		return json.Unmarshal(l.b, reply)
	case <-time.After(watchdog):
		p.cmd.Process.Kill()
		<-ch
		p.cmd.Wait()
		p.cmd = nil
		return crash{"no answer", "the call did not return"}
	}
}

// pool hands out workers to parallel callers.
type pool struct{ ch chan *proc }

func newPool(bin string, n int, env ...string) *pool {
	p := &pool{make(chan *proc, n)}
	for i := 0; i < n; i++ {
		p.ch <- newProc(bin, env...)
	}
	return p
}

func (p *pool) Call(q map[string]interface{}, reply interface{}) error {
	w := <-p.ch
	defer func() { p.ch <- w }()
	return w.Call(q, reply)
}

func (p *pool) Close() {
	for i := 0; i < cap(p.ch); i++ {
		w := <-p.ch
		w.Close()
	}
}

func jsonUnmarshal(s string, v interface{}) error { return json.Unmarshal([]byte(s), v) }
