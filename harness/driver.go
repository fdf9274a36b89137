package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Services built with baron, and a driver (/verif/rt/rtlib) linked with them
// which calls them and judges what it sees.

var runOpts = genOpts{Rpcs: 8, NoHTTP: true, Tricky: true, Oneofs: true, Maps: true, Wkt: true, Nested: true, Optional: true, LowerRPC: true, Imported: true, DottedPkg: true}

type fleet struct {
	h    *H
	ws   *WS
	bin  string
	race bool
	file []*File
}

// newFleet builds n generated services with a driver. transport says with which
// transports; extra is further files.
func (h *H) newFleet(n int, o genOpts, transport func(i int) string, race bool, extra ...*File) *fleet {
	fl := &fleet{h: h, ws: h.newWS(), race: race}
	r := h.Rand("services")
	noPkg := false
	for i := 0; i < n; i++ {
		f := genFile(r, fmt.Sprintf("c%d", i), o)
		f.number(i)
		// names of different files meet in one program
		if f.Pkg == "" && noPkg {
			f.Pkg = fmt.Sprintf("c%d", i)
		}
		noPkg = noPkg || f.Pkg == ""
		fl.file = append(fl.file, f)
	}
	fl.file = append(fl.file, extra...)
	w := fl.ws
	ok := make([]bool, len(fl.file))
	parallel(len(fl.file), func(i int) {
		f := fl.file[i]
		text := f.Text()
		t := transport(i)
		args := []string{"--transport", t}
		if i%3 == 1 && i < n {
			// a definition of several files
			sr := rand.New(rand.NewSource(h.Seed + int64(i)))
			for _, x := range f.split(sr, 2+i%2) {
				w.Write(x.Path, x.Text())
				args = append(args, x.Path)
			}
		} else {
			w.Write(f.Path, text)
			args = append(args, f.Path)
		}
		res := w.Baron("", args...)
		if res.Code != 0 {
			h.Violation("a valid definition is refused", map[string]interface{}{"file": text, "output": tail(res.Out+res.Err, 1500)})
			return
		}
		w.Write(fmt.Sprintf("driver/glue%d.go", i), glue(f, t))
		ok[i] = true
	})
	w.Write("driver/main.go", "package main\n\nimport \"scratch/rt\"\n\nfunc main() { rt.Main() }\n")
	ents, err := os.ReadDir(filepath.Join(h.Verif, "rt/rtlib"))
	must(err)
	for _, e := range ents {
		w.Write("rt/"+e.Name(), read(filepath.Join(h.Verif, "rt/rtlib", e.Name())))
	}
	fl.bin = filepath.Join(w.root, "driver")
	args := []string{"build", "-o", fl.bin}
	if race {
		args = append(args, "-race")
	}
	res := w.Go(append(args, "./driver")...)
	if res.Code != 0 {
		// Of generated code that is C06's to say, but without it nothing runs.
		h.Violation("the generated code does not compile", clip(res.Err, 3000))
		return fl
	}
	h.Count("services built", len(fl.file))
	return fl
}

func (fl *fleet) Close() { fl.ws.Close() }

// glue connects a generated service to the driver.
func glue(f *File, transport string) string {
	var b strings.Builder
	p := func(format string, a ...interface{}) { fmt.Fprintf(&b, format+"\n", a...) }
	svc := goCamel(f.Svc.Name)
	grpc := transport == "all" || transport == "grpc"
	nats := transport == "all" || transport == "nats"
	http := false
	full := f.Svc.Name
	if f.Pkg != "" {
		full = f.Pkg + "." + full
	}
	for _, r := range f.Svc.Rpcs {
		http = http || len(r.HTTP) > 0
	}
	tag := strings.ToLower(svc)
	p("package main\n\nimport (\n\"context\"\n\"net/http\"\n\n\"github.com/go-kit/kit/endpoint\"\nkithttp \"github.com/go-kit/kit/transport/http\"")
	if grpc {
		p("kitgrpc \"github.com/go-kit/kit/transport/grpc\"\n\"google.golang.org/grpc\"")
	}
	if nats {
		p("nats \"github.com/nats-io/nats.go\"")
	}
	p("\n\"scratch/rt\"\npb %q\n\"scratch/%s-service/server\"\n)\n", f.GoPkg, f.lower())
	p("type impl_%s struct {\npb.Unimplemented%sServer\nh rt.Handler\n}\n", tag, svc)
	p("var _ = context.Background\nvar _ http.Handler\nvar _ kithttp.Server\n")
	for _, r := range f.Svc.Rpcs {
		if r.CStream || r.SStream {
			continue
		}
		p("func (s impl_%s) %s(ctx context.Context, in *pb.%s) (*pb.%s, error) {", tag, goCamel(r.Name), goMsg(r.In), goMsg(r.Out))
		p("out, err := s.h(ctx, %q, in)\nif out == nil {\nreturn nil, err\n}\nreturn out.(*pb.%s), err\n}\n", goCamel(r.Name), goMsg(r.Out))
	}
	p("func init() {\nrt.Register(&rt.Service{\nName: %q, Full: %q,", svc, full)
	p("Endpoints: func(h rt.Handler) interface{} {\ne := server.NewEndpoints(impl_%s{h: h})\nreturn &e\n},", tag)
	p("WrapAll: func(eps interface{}, mw endpoint.Middleware, excluded ...string) {\neps.(*pb.Endpoints).WrapAllExcept(mw, excluded...)\n},")
	p("WrapLabel: func(eps interface{}, mw func(string, endpoint.Endpoint) endpoint.Endpoint, excluded ...string) {\neps.(*pb.Endpoints).WrapAllLabeledExcept(mw, excluded...)\n},")
	p("HTTP: func(eps interface{}) http.Handler { return pb.MakeHTTPHandler(*eps.(*pb.Endpoints), append(server.HTTPServerOptions(), kithttp.ServerBefore(rt.MarkHTTP))...) },")
	if http {
		p("HTTPClient: func(addr string, hc *http.Client, keys ...string) (interface{}, error) {\nreturn pb.NewHTTPClient(addr, kithttp.SetClient(hc), pb.CtxValuesToSend(keys...))\n},")
	}
	if grpc {
		p("GRPC: func(s *grpc.Server, eps interface{}) { pb.Register%sServer(s, pb.MakeGRPCServer(*eps.(*pb.Endpoints), append(server.GRPCServerOptions(), kitgrpc.ServerBefore(rt.MarkGRPC))...)) },", svc)
		p("GRPCClient: func(conn *grpc.ClientConn, keys ...string) (interface{}, error) {\nreturn pb.NewGRPCClient(conn, kitgrpc.ClientBefore(pb.ContextValuesToGRPCMetadata(keys)))\n},")
	}
	if nats {
		p("NATS: func(nc *nats.Conn, eps interface{}) error { return pb.ServeNATS(nc, pb.MakeNATSServer(*eps.(*pb.Endpoints), server.NATSSubscriberOptions()...)) },")
		p("NATSClient: func(nc *nats.Conn) (interface{}, error) { return pb.NewNATSClient(nc) },")
	}
	p("})\n}")
	return b.String()
}

// Run runs the driver and takes in what it reports.
func (fl *fleet) Run(check string, seed int64, n int, arg string, timeout time.Duration, env ...string) {
	h := fl.h
	if !exists(fl.bin) {
		return
	}
	conf, _ := json.Marshal(map[string]interface{}{"Check": check, "Seed": seed, "N": n, "Arg": arg})
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, fl.bin, string(conf))
	cmd.Dir = fl.ws.Tmp
	cmd.Env = append(append([]string{}, fl.ws.env...), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var errBuf strings.Builder
	cmd.Stderr = &limited{w: &errBuf, n: 1 << 20}
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	sc := bufio.NewScanner(out)
	sc.Buffer(nil, 1<<28)
	ended := false
	for sc.Scan() {
		var l struct {
			T, Key, Id, What string
			Detail           interface{}
			V                interface{}
			Evals            int
			Hashes           []string
			Counts           map[string]int
		}
		if json.Unmarshal(sc.Bytes(), &l) != nil {
			continue
		}
		switch l.T {
		case "violation":
			h.Violation(l.Key, l.Detail)
		case "known":
			h.Known(l.Id, l.What)
		case "sample":
			h.Sample(l.V)
		case "end":
			ended = true
			for _, k := range l.Hashes {
				h.Eval(k, true)
			}
			for i := len(l.Hashes); i < l.Evals; i++ {
				h.Eval("", false)
			}
			for k, n := range l.Counts {
				h.Count(k, n)
			}
		}
	}
	err = cmd.Wait()
	if i := strings.Index(errBuf.String(), "WARNING: DATA RACE"); i >= 0 {
		h.Violation("the race detector reports a data race", clip(errBuf.String()[i:], 4000))
		return
	}
	if ctx.Err() != nil {
		h.Violation("the services hang", tail(errBuf.String(), 3000))
		return
	}
	if err != nil || !ended {
		if strings.HasPrefix(errBuf.String(), "driver error:") {
			h.fatal("%s", errBuf.String())
		}
		h.Violation("the services crash", map[string]interface{}{"error": fmt.Sprint(err), "stderr": crashText(errBuf.String())})
	}
}

func crashText(s string) string {
	for _, k := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, k); i >= 0 {
			return clip(s[i:], 3000)
		}
	}
	return tail(s, 3000)
}

type limited struct {
	w *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}
