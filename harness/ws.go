package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// WS is a workspace: a Go module in which baron is run the way a user does,
// with a GOPATH, a home and a temporary directory of its own.
type WS struct {
	h    *H
	root string
	Dir  string // the module
	Tmp  string
	Home string
	env  []string
	cred *syscall.SysProcAttr // how the tool is run, or nil
}

// The tool runs as a user who owns the workspace and nothing else, though it
// may read everything: whatever it does to files stays in the workspace.
const (
	toolUser       = 65534
	capReadAll     = 2 // CAP_DAC_READ_SEARCH
	toolCacheInAll = "gocache"
)

var wsCount int32

func (h *H) newWS() *WS {
	root := filepath.Join(h.W, "ws", fmt.Sprint(atomic.AddInt32(&wsCount, 1)))
	w := &WS{h: h, root: root, Dir: filepath.Join(root, "mod"), Tmp: filepath.Join(root, "tmp"), Home: filepath.Join(root, "home")}
	for _, d := range []string{w.Dir, w.Tmp, w.Home, filepath.Join(root, "gopath/src/github.com/teamlint")} {
		must(os.MkdirAll(d, 0755))
	}
	must(os.Symlink(h.Repo, filepath.Join(root, "gopath/src/github.com/teamlint/baron")))
	mod := strings.Replace(read(filepath.Join(h.Verif, "rt", "go.mod.tmpl")), "@VERIF@", h.Verif, -1)
	write(filepath.Join(w.Dir, "go.mod"), mod)
	write(filepath.Join(w.Dir, "go.sum"), read(filepath.Join(h.Verif, "rt", "go.sum")))
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOPATH", "TMPDIR", "HOME", "GOMODCACHE", "GOCACHE", "PWD", "OLDPWD":
		default:
			w.env = append(w.env, e)
		}
	}
	w.env = append(w.env, "GOPATH="+filepath.Join(root, "gopath"), "TMPDIR="+w.Tmp, "HOME="+w.Home,
		"GOMODCACHE="+os.Getenv("GOMODCACHE"), "GOCACHE="+os.Getenv("GOCACHE"))
	if h.contained() {
		w.cred = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: toolUser, Gid: toolUser}, AmbientCaps: []uintptr{capReadAll}}
		w.own(w.root)
		cache := filepath.Join(h.W, toolCacheInAll)
		must(os.MkdirAll(cache, 0777))
		must(os.Chown(cache, toolUser, toolUser))
	}
	return w
}

var containOnce sync.Once
var containOK bool

// contained reports whether the tool can be run as a user of its own.
func (h *H) contained() bool {
	containOnce.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		cmd := exec.Command("/bin/true")
		cmd.Dir = h.W
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: toolUser, Gid: toolUser}, AmbientCaps: []uintptr{capReadAll}}
		containOK = cmd.Run() == nil
		if containOK {
			h.Count("tool runs as a user who owns its workspace only", 1)
		}
	})
	return containOK
}

// own gives what is at or below path to the user who runs the tool.
func (w *WS) own(path string) {
	if w.h.contained() {
		filepath.Walk(path, func(p string, _ os.FileInfo, err error) error {
			if err == nil {
				os.Lchown(p, toolUser, toolUser)
			}
			return nil
		})
	}
}

// Close removes the workspace.
func (w *WS) Close() { os.RemoveAll(w.root) }

// Write writes a file of the module.
func (w *WS) Write(path, content string) {
	w.Mkdir(filepath.Dir(path))
	p := filepath.Join(w.Dir, path)
	must(os.WriteFile(p, []byte(content), 0644))
	w.chown(p)
}

// Mkdir makes a directory of the module.
func (w *WS) Mkdir(path string) {
	p := filepath.Join(w.Dir, path)
	if path == "." || path == "/" || exists(p) {
		return
	}
	w.Mkdir(filepath.Dir(path))
	if err := os.Mkdir(p, 0755); err != nil && !os.IsExist(err) {
		panic(err)
	}
	w.chown(p)
}

func (w *WS) chown(p string) {
	if w.h.contained() {
		os.Lchown(p, toolUser, toolUser)
	}
}
func (w *WS) Read(path string) string { return read(filepath.Join(w.Dir, path)) }
func (w *WS) Exists(path string) bool { return exists(filepath.Join(w.Dir, path)) }

// Baron runs the tool in a directory of the module.
func (w *WS) Baron(sub string, args ...string) result {
	return w.BaronEnv(sub, nil, nil, args...)
}

// BaronEnv runs the tool by a command prefix and with further environment.
func (w *WS) BaronEnv(sub string, prefix, env []string, args ...string) result {
	bin := w.h.Baron()
	dir := filepath.Join(w.Dir, sub)
	e := append(append([]string{}, w.env...), "PWD="+dir)
	if w.cred != nil {
		e = append(e, "GOCACHE="+filepath.Join(w.h.W, toolCacheInAll))
	}
	e = append(e, env...)
	argv := append(append(append([]string{}, prefix...), bin), args...)
	w.h.Count("runs of baron", 1)
	// a run takes a fraction of a second; where one hangs so do others
	limit := 100 * time.Second
	if atomic.LoadInt32(&hung) > 0 {
		limit = 15 * time.Second
	}
	r := commandX(limit, w.cred, dir, e, "", argv[0], argv[1:]...)
	if r.Hung {
		atomic.AddInt32(&hung, 1)
		w.h.Count("runs which did not end", 1)
		if r.Err == "" {
			r.Err = fmt.Sprintf("still running after %v", limit)
		}
	}
	return r
}

var hung int32 // runs which did not end

// Go runs the go command in the module.
func (w *WS) Go(args ...string) result {
	return command(w.Dir, w.env, "", "go", args...)
}

// lower is the name of the directory of a service less "-service"
func (f *File) lower() string { return strings.ToLower(goCamel(f.Svc.Name)) }

// interrupted runs the tool and sends it a signal after some time.
func (w *WS) interrupted(sub string, sig syscall.Signal, after time.Duration, args ...string) result {
	bin := w.h.Baron()
	dir := filepath.Join(w.Dir, sub)
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = append(append([]string{}, w.env...), "PWD="+dir)
	attr := &syscall.SysProcAttr{}
	if w.cred != nil {
		*attr = *w.cred
		cmd.Env = append(cmd.Env, "GOCACHE="+filepath.Join(w.h.W, toolCacheInAll))
	}
	attr.Setpgid = true
	cmd.SysProcAttr = attr
	cmd.WaitDelay = 5 * time.Second
	var out syncBuffer
	cmd.Stdout, cmd.Stderr = &out, &out
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var r result
	select {
	case <-done:
	case <-time.After(after):
		// the tool and all it started
		syscall.Kill(-cmd.Process.Pid, sig)
		select {
		case <-done:
		case <-time.After(2 * time.Minute):
			r.Hung = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	w.h.Count("runs of baron", 1)
	r.Out = out.String()
	r.Code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.Signal = ws.Signal().String()
	}
	return r
}
