package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C20"] = checkDef{run: func(h *H) { runPrograms(h, false) },
		rule:    "one run of a generated server program, completed with a user's handlers, wrappers and options, under flags and an environment which give it addresses; where it listens, what its calls pass through, and how it ends are compared with what flags and environment say. Non-trivial: every distinct service, flags and environment",
		assumes: []string{stubs, "ports which the check found free are not taken by others"}}
	checks["C23"] = checkDef{run: func(h *H) { runPrograms(h, true) },
		rule:    "one run of a generated client program against its server; the calls the server sees, and what the program says and exits with, are compared with the rpcs of the definition. Non-trivial: every distinct service and failure",
		assumes: []string{stubs, "ports which the check found free are not taken by others"}}
}

// --- services ---

type progSvc struct {
	h         *H
	f         *File
	n         int
	transport string
	dir       string // of the service, in the workspace
	excluded  string // endpoint the labelled middleware leaves out, or ""
	safe      bool   // the client program can call all with empty messages
}

var progMsgs = []*Msg{
	{Name: "Sub", Fields: []*Field{{Name: "x", Num: 1, Type: "string", Kind: "string"}}},
	{Name: "Ask", Fields: []*Field{{Name: "id", Num: 1, Type: "string", Kind: "string"}, {Name: "n", Num: 2, Type: "int64", Kind: "int64"},
		{Name: "tags", Num: 3, Type: "string", Kind: "string", Label: "repeated"}, {Name: "sub", Num: 4, Type: "Sub", Kind: "message"}}},
	{Name: "Answer", Fields: []*Field{{Name: "id", Num: 1, Type: "string", Kind: "string"}, {Name: "n", Num: 2, Type: "int64", Kind: "int64"},
		{Name: "tags", Num: 3, Type: "string", Kind: "string", Label: "repeated"}, {Name: "sub", Num: 4, Type: "Sub", Kind: "message"}, {Name: "by", Num: 5, Type: "string", Kind: "string"}}},
}

func newProg(h *H, r *rand.Rand, i int, safe bool) *progSvc {
	p := &progSvc{h: h, n: i, safe: safe, transport: transports[i%3]}
	pkg := fmt.Sprintf("p%d", i)
	names := []string{"Get", "Put", "List", "Watch", "Ping", "do_it", "Status", "Serve", "Run", "New_Thing", "Interrupt", "check2", "HTTP", "Endpoints2"}
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	svc := &Svc{Name: pick(r, []string{"Orders", "Echo", "order_book", "HTTPThing"}) + fmt.Sprintf("P%d", i)}
	noHTTP := i%4 == 3
	for k := 0; k < 1+r.Intn(5); k++ {
		rpc := &Rpc{Name: names[k], In: "Ask", Out: "Answer"}
		path := "/" + strings.ToLower(names[k])
		if !noHTTP {
			switch x := r.Intn(7); {
			case x == 0:
			case x == 1:
				rpc.HTTP = []Binding{{Verb: "post", Path: "/v1" + path, Body: "*"}}
			case x == 2:
				rpc.HTTP = []Binding{{Verb: "put", Path: "/v1" + path + "/sub", Body: "sub"}}
			case x == 3 && !safe:
				rpc.HTTP = []Binding{{Verb: "get", Path: "/p" + path + "/{id}"}}
			case x == 4:
				rpc.HTTP = []Binding{{Verb: "delete", Path: path}, {Verb: "post", Path: "/more" + path, Body: "*"}}
			default:
				rpc.HTTP = []Binding{{Verb: "get", Path: "/v2" + path}}
			}
		}
		svc.Rpcs = append(svc.Rpcs, rpc)
	}
	if r.Intn(2) == 0 {
		p.excluded = goCamel(svc.Rpcs[r.Intn(len(svc.Rpcs))].Name)
	}
	p.f = &File{Path: pkg + "/" + pkg + ".proto", Pkg: pkg, GoPkg: "scratch/" + pkg, Imps: []string{"google/api/annotations.proto"}, Msgs: progMsgs, Svc: svc}
	p.dir = p.f.lower() + "-service"
	return p
}

func (p *progSvc) has(t string) bool {
	switch t {
	case "http":
		for _, r := range p.f.Svc.Rpcs {
			if len(r.HTTP) > 0 {
				return true
			}
		}
		return false
	}
	return p.transport == "all" || p.transport == t
}

// rpcs are the Go names of the rpcs a transport carries.
func (p *progSvc) rpcs(t string) []string {
	var rv []string
	for _, r := range p.f.Svc.Rpcs {
		if t != "http" || len(r.HTTP) > 0 {
			rv = append(rv, goCamel(r.Name))
		}
	}
	return rv
}

// complete generates the service, adds a user's code and generates again.
func (p *progSvc) complete(w *WS) bool {
	f := p.f
	w.Write(f.Path, f.Text())
	args := []string{"-c", "--transport", p.transport, f.Path}
	gen := func() bool {
		res := w.Baron("", args...)
		if res.Code != 0 {
			p.h.Violation("a valid definition is refused", map[string]interface{}{"file": f.Text(), "args": args, "output": tail(res.Out+res.Err, 1500)})
		}
		return res.Code == 0
	}
	if !gen() {
		return false
	}
	edit := func(path string, f func(s string) string) {
		path = filepath.Join(p.dir, path)
		was := w.Read(path)
		now := f(was)
		if now == was {
			p.h.Violation("the place for a user's code is not in "+filepath.Base(filepath.Dir(path))+"/"+filepath.Base(path), map[string]interface{}{"text": clip(was, 3000)})
		}
		w.Write(path, now)
	}
	edit("service/service.go", func(s string) string {
		return regexp.MustCompile(`(?s)(func \(s \*\w+\) (\w+)\(ctx context.Context, in \*pb.Ask\) \(\*pb.Answer, error\) \{\n).*?\n\}`).ReplaceAllString(s, "$1\treturn answer(\"$2\", in)\n}")
	})
	edit("service/wrapper.go", func(s string) string {
		s = regexp.MustCompile(`(?s)(func WrapEndpoints\(in pb.Endpoints\) pb.Endpoints \{\n).*?\n\}`).ReplaceAllString(s, "$1\treturn wrapEndpoints(in)\n}")
		return regexp.MustCompile(`(?s)(func WrapService\(in pb.(\w+)Server\) pb.\w+Server \{\n).*?\n\}`).ReplaceAllString(s, "$1\treturn wrapService{in}\n}")
	})
	edit("server/wrapper.go", func(s string) string {
		for _, t := range []string{"GRPC", "HTTP", "NATS"} {
			s = regexp.MustCompile(`(?s)(func `+t+`\w+Options\(\) \S+ \{\n).*?\n\}`).ReplaceAllString(s, "$1\treturn options"+t+"\n}")
		}
		return s
	})
	svc := goCamel(f.Svc.Name)
	var wraps, excl string
	for _, r := range p.rpcs("") {
		wraps += fmt.Sprintf("func (w wrapService) %s(ctx context.Context, in *pb.Ask) (*pb.Answer, error) {\n\tEvent(\"service\", %q)\n\treturn w.%sServer.%s(ctx, in)\n}\n\n", r, r, svc, r)
	}
	if p.excluded != "" {
		excl = fmt.Sprintf(", %q", p.excluded)
	}
	w.Write(p.dir+"/service/verif.go", strings.NewReplacer("@SVC@", svc, "@PB@", f.GoPkg, "@WRAPS@", wraps, "@EXCL@", excl).Replace(progService))
	w.Write(p.dir+"/server/verif.go", strings.Replace(progServer, "@SERVICE@", "scratch/"+p.dir+"/service", -1))
	w.Write(fmt.Sprintf("caller%d/main.go", p.n), p.caller())
	return gen()
}

const progService = `package service

import (
	"context"
	"encoding/json"
	"errors"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/go-kit/kit/endpoint"

	pb "@PB@"
)

var eventMu sync.Mutex

// Event records that a call came past.
func Event(what ...string) {
	runtime.GC()
	eventMu.Lock()
	defer eventMu.Unlock()
	f, err := os.OpenFile(os.Getenv("VERIF_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		return
	}
	buf, _ := json.Marshal(what)
	f.Write(append(buf, '\n'))
	f.Close()
}

var answers int64

func answer(rpc string, in *pb.Ask) (*pb.Answer, error) {
	buf, _ := json.Marshal(in)
	Event("handler", rpc, string(buf))
	if os.Getenv("VERIF_FAIL") == strconv.FormatInt(atomic.AddInt64(&answers, 1), 10) {
		return nil, errors.New("verif failure of " + rpc)
	}
	return &pb.Answer{Id: "re:" + in.Id, N: in.N + 1, Tags: in.Tags, Sub: in.Sub, By: rpc}, nil
}

type wrapService struct{ pb.@SVC@Server }

@WRAPS@

func wrapEndpoints(in pb.Endpoints) pb.Endpoints {
	in.WrapAllLabeledExcept(func(label string, next endpoint.Endpoint) endpoint.Endpoint {
		return func(ctx context.Context, req interface{}) (interface{}, error) {
			Event("label", label)
			return next(ctx, req)
		}
	}@EXCL@)
	in.WrapAllExcept(func(next endpoint.Endpoint) endpoint.Endpoint {
		return func(ctx context.Context, req interface{}) (interface{}, error) {
			Event("all")
			return next(ctx, req)
		}
	})
	return in
}
`

const progServer = `package server

import (
	"context"
	"net/http"

	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc/metadata"

	"@SERVICE@"
)

var optionsGRPC = []grpctransport.ServerOption{grpctransport.ServerBefore(func(ctx context.Context, _ metadata.MD) context.Context {
	service.Event("grpc")
	return ctx
})}

var optionsHTTP = []httptransport.ServerOption{httptransport.ServerBefore(func(ctx context.Context, _ *http.Request) context.Context {
	service.Event("http")
	return ctx
})}

var optionsNATS = []natstransport.SubscriberOption{natstransport.SubscriberBefore(func(ctx context.Context, _ *nats.Msg) context.Context {
	service.Event("nats")
	return ctx
})}
`

// caller is a program which makes calls, given on its input, by a transport.
func (p *progSvc) caller() string {
	var b strings.Builder
	w := func(format string, a ...interface{}) { fmt.Fprintf(&b, format+"\n", a...) }
	w("package main\n\nimport (\n\"bufio\"\n\"context\"\n\"encoding/json\"\n\"fmt\"\n\"os\"\n\"reflect\"\n\"time\"\n")
	if p.has("nats") {
		w("\"github.com/nats-io/nats.go\"")
	}
	if p.has("grpc") {
		w("\"google.golang.org/grpc\"")
	}
	w("\npb %q\n)\n", p.f.GoPkg)
	w("func main() {\naddr := os.Args[2]\nvar client interface{}\nvar err error\nswitch os.Args[1] {")
	if p.has("http") {
		w("case \"http\":\nclient, err = pb.NewHTTPClient(addr)")
	}
	if p.has("grpc") {
		w("case \"grpc\":\nconn, e := grpc.Dial(addr, grpc.WithInsecure())\nif e != nil {\nfmt.Println(e)\nos.Exit(1)\n}\nclient, err = pb.NewGRPCClient(conn)")
	}
	if p.has("nats") {
		w("case \"nats\":\nconn, e := nats.Connect(addr)\nif e != nil {\nfmt.Println(e)\nos.Exit(1)\n}\nclient, err = pb.NewNATSClient(conn)")
	}
	w(`}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var call struct {
			Rpc string
			In  json.RawMessage
		}
		json.Unmarshal(in.Bytes(), &call)
		var msg pb.Ask
		json.Unmarshal(call.In, &msg)
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		rv := reflect.ValueOf(client).MethodByName(call.Rpc).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(&msg)})
		cancel()
		var reply struct {
			Out interface{}
			Err string
		}
		reply.Out = rv[0].Interface()
		if e, ok := rv[1].Interface().(error); ok && e != nil {
			reply.Err = e.Error()
		}
		buf, _ := json.Marshal(reply)
		fmt.Println(string(buf))
	}
}`)
	return b.String()
}

// --- a broker for the NATS stand-in ---

type natsFrame struct {
	Op      string
	Sid     int    `json:",omitempty"`
	Subject string `json:",omitempty"`
	Queue   string `json:",omitempty"`
	Reply   string `json:",omitempty"`
	Data    []byte `json:",omitempty"`
}

type natsSub struct {
	c       *natsPeer
	sid     int
	subject string
	queue   string
}

type natsPeer struct {
	mu  sync.Mutex
	enc *json.Encoder
	c   net.Conn
}

type natsBroker struct {
	ln   net.Listener
	mu   sync.Mutex
	subs []natsSub
	rr   int
	seen int // connections
}

func newBroker() *natsBroker {
	var ln net.Listener
	for {
		var err error
		if ln, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", freePort())); err == nil {
			break
		}
	}
	b := &natsBroker{ln: ln}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b.mu.Lock()
			b.seen++
			b.mu.Unlock()
			go b.serve(&natsPeer{enc: json.NewEncoder(c), c: c})
		}
	}()
	return b
}

func (b *natsBroker) addr() string { return b.ln.Addr().String() }

func (b *natsBroker) subjects() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	var rv []string
	for _, s := range b.subs {
		if !strings.HasPrefix(s.subject, "_INBOX") {
			rv = append(rv, s.subject+"|"+s.queue)
		}
	}
	return rv
}

func (b *natsBroker) connections() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.seen
}

func (b *natsBroker) serve(p *natsPeer) {
	dec := json.NewDecoder(bufio.NewReader(p.c))
	for {
		var f natsFrame
		if dec.Decode(&f) != nil {
			break
		}
		b.mu.Lock()
		switch f.Op {
		case "sub":
			b.subs = append(b.subs, natsSub{p, f.Sid, f.Subject, f.Queue})
		case "unsub":
			for i, s := range b.subs {
				if s.c == p && s.sid == f.Sid {
					b.subs = append(b.subs[:i:i], b.subs[i+1:]...)
					break
				}
			}
		case "pub":
			groups := map[string][]natsSub{}
			for _, s := range b.subs {
				if s.subject == f.Subject {
					if s.queue == "" {
						s.send(f)
					} else {
						groups[s.queue] = append(groups[s.queue], s)
					}
				}
			}
			for _, g := range groups {
				b.rr++
				g[b.rr%len(g)].send(f)
			}
		}
		b.mu.Unlock()
	}
	p.c.Close()
	b.mu.Lock()
	defer b.mu.Unlock()
	var rest []natsSub
	for _, s := range b.subs {
		if s.c != p {
			rest = append(rest, s)
		}
	}
	b.subs = rest
}

func (s natsSub) send(f natsFrame) {
	s.c.mu.Lock()
	defer s.c.mu.Unlock()
	s.c.enc.Encode(natsFrame{Op: "msg", Sid: s.sid, Subject: f.Subject, Reply: f.Reply, Data: f.Data})
}

// --- ports ---

var portMu sync.Mutex
var portNext = 20000 + os.Getpid()%997*12

// freePort is a port below those the system gives to connections.
func freePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		portNext++
		if portNext >= 32000 {
			portNext = 20000
		}
		// not by listening: a process started meanwhile would hold the port
		if !listening(portNext) {
			return portNext
		}
	}
}

func listening(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 5*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// --- runs ---

// setting is one address of one run.
type setting struct {
	transport string
	port      int    // where it is to be served, or 0
	addr      string // as given
	losers    []int  // ports which were given but do not count
}

type progRun struct {
	h    *H
	p    *progSvc
	bin  string
	dir  string
	r    *rand.Rand
	env  []string
	args []string
	set  map[string]*setting
	b    [2]*natsBroker
	logf string
	out  syncBuffer
	cmd  *exec.Cmd
	done chan error
	want []string // events to come
	bad  bool

	unlock func() // at the end of the run
}

// defaultDebug is held by the run whose program may use the default address.
var defaultDebug sync.Mutex

func (x *progRun) fail(key string, d map[string]interface{}) {
	if d == nil {
		d = map[string]interface{}{}
	}
	d["service"], d["transport"], d["args"], d["env"], d["output"] = x.p.f.Text(), x.p.transport, x.args, x.env, tail(x.out.String(), 1500)
	x.h.Violation(key, d)
	x.bad = true
}

func (x *progRun) events() []string {
	s := strings.TrimSpace(read(x.logf))
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

// configure draws flags and environment and works out what they mean.
func (x *progRun) configure(serve map[string]bool) {
	r := x.r
	x.set = map[string]*setting{}
	addr := func() (string, int) {
		p := freePort()
		return fmt.Sprintf(pick(r, []string{":%d", "127.0.0.1:%d", "localhost:%d", "0.0.0.0:%d"}), p), p
	}
	flag := func(name, v string) {
		dash := pick(r, []string{"-", "--"})
		if r.Intn(2) == 0 {
			x.args = append(x.args, dash+name+"="+v)
		} else {
			x.args = append(x.args, dash+name, v)
		}
	}
	for _, t := range []string{"http", "grpc", "nats"} {
		s := &setting{transport: t}
		x.set[t] = s
		if !serve[t] {
			if r.Intn(3) == 0 { // set, and unset by a flag
				a, p := addr()
				if t == "nats" {
					a, p = x.b[1].addr(), 0
				}
				x.env = append(x.env, strings.ToUpper(t)+"_ADDR="+a)
				flag(t+".addr", "")
				if p > 0 {
					s.losers = append(s.losers, p)
				}
			}
			continue
		}
		give := func(how string) {
			a, p := addr()
			if t == "nats" {
				b := x.b[0]
				if s.addr != "" {
					b = x.b[1]
				}
				a, p = pick(r, []string{"", "nats://"})+b.addr(), b.ln.Addr().(*net.TCPAddr).Port
			}
			if s.addr == "" {
				s.addr, s.port = a, p
				if how == "PORT" {
					s.addr = fmt.Sprintf(":%d", p)
				}
			} else {
				s.losers = append(s.losers, p)
			}
			switch how {
			case "flag":
				flag(t+".addr", a)
			case "PORT":
				x.env = append(x.env, fmt.Sprintf("PORT=%d", p))
			default:
				x.env = append(x.env, how+"="+a)
			}
		}
		ways := []string{"flag", strings.ToUpper(t) + "_ADDR"}
		if t == "http" {
			ways = append(ways, "PORT")
		}
		first := r.Intn(len(ways))
		for i, how := range ways {
			// in the order of their precedence
			if i == first || i > first && r.Intn(2) == 0 {
				give(how)
			}
		}
		if r.Intn(4) == 0 && first == 0 {
			// an empty variable counts as none
			x.env = append(x.env, "X_"+strings.ToUpper(t)+"_ADDR=")
		}
	}
	// debug
	s := &setting{transport: "debug"}
	x.set["debug"] = s
	on := false
	if r.Intn(2) == 0 {
		v := pick(r, []string{"true", "TRUE", "True", "false", "1", "yes", ""})
		x.env = append(x.env, "DEBUG="+v)
		on = strings.ToLower(v) == "true"
	}
	if r.Intn(2) == 0 {
		v := pick(r, []string{"-debug", "--debug=true", "-debug=false", "--debug=1"})
		x.args = append(x.args, v)
		on = v != "-debug=false"
	}
	a1, p1 := addr()
	a2, p2 := addr()
	switch r.Intn(3) {
	case 0:
		flag("debug.addr", a1)
		s.addr, s.port = a1, p1
		if r.Intn(2) == 0 {
			x.env = append(x.env, "DEBUG_ADDR="+a2)
			s.losers = append(s.losers, p2)
		}
	case 1:
		// the documented default; one program at a time
		if defaultDebug.TryLock() {
			lock, err := os.OpenFile(filepath.Join(os.TempDir(), "verif-baron-5060.lock"), os.O_CREATE|os.O_RDWR, 0600)
			if err == nil && syscall.Flock(int(lock.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil && !listening(5060) {
				x.unlock = func() {
					lock.Close()
					defaultDebug.Unlock()
				}
				s.addr, s.port = ":5060", 5060
				x.h.Count("default debug address", 1)
				break
			}
			if lock != nil {
				lock.Close()
			}
			defaultDebug.Unlock()
		}
		fallthrough
	default:
		x.env = append(x.env, "DEBUG_ADDR="+a2)
		s.addr, s.port = a2, p2
	}
	if !on {
		s.losers = append(s.losers, s.port)
		s.port = 0
	}
	// what the service does not have is not served
	for _, t := range []string{"http", "grpc", "nats"} {
		if s := x.set[t]; !x.p.has(t) && s.port != 0 {
			if t != "nats" {
				s.losers = append(s.losers, s.port)
			}
			s.port = 0
		}
	}
	r.Shuffle(len(x.args), func(i, j int) {
		// only where no argument depends on the one before
		for _, a := range x.args {
			if !strings.HasPrefix(a, "-") {
				return
			}
		}
		x.args[i], x.args[j] = x.args[j], x.args[i]
	})
}

func (x *progRun) start(extraEnv ...string) {
	x.cmd = exec.Command(x.bin, x.args...)
	x.cmd.Dir = x.dir
	x.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "VERIF_LOG=" + x.logf}, x.env...)
	x.cmd.Env = append(x.cmd.Env, extraEnv...)
	x.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	x.cmd.Stdout, x.cmd.Stderr = &x.out, &x.out
	x.cmd.WaitDelay = 5 * time.Second
	x.done = make(chan error, 1)
	started := make(chan error)
	go func() { // Pdeathsig is of the thread which starts it
		err := x.cmd.Start()
		started <- err
		if err == nil {
			x.done <- x.cmd.Wait()
		}
	}()
	must(<-started)
	x.h.Count("programs run", 1)
}

func (x *progRun) kill() {
	syscall.Kill(-x.cmd.Process.Pid, syscall.SIGKILL)
}

func (x *progRun) ended(limit time.Duration) bool {
	select {
	case err := <-x.done:
		x.done <- err
		return true
	case <-time.After(limit):
		return false
	}
}

const progLimit = 30 * time.Second

// up waits until all is served which is to be.
func (x *progRun) up() bool {
	deadline := time.Now().Add(progLimit)
	for _, t := range []string{"http", "grpc", "debug", "nats"} {
		s := x.set[t]
		if s.port == 0 {
			continue
		}
		for {
			ok := false
			if t == "nats" {
				ok = len(x.b[0].subjects()) >= len(x.p.rpcs("nats"))
			} else {
				ok = listening(s.port)
			}
			if ok {
				break
			}
			if x.ended(0) {
				x.fail("the server program ends though its addresses are good", map[string]interface{}{"transport": t, "address": s.addr})
				return false
			}
			if time.Now().After(deadline) {
				x.fail("the server program does not serve where it is told to", map[string]interface{}{"transport": t, "address": s.addr})
				return false
			}
			time.Sleep(5 * time.Millisecond)
		}
		x.h.Count("transports served: "+t, 1)
	}
	return true
}

// trace is what a call is to pass through.
func (p *progSvc) trace(transport, rpc, in string) []string {
	rv := []string{js([]string{transport}), js([]string{"all"})}
	if rpc != p.excluded {
		rv = append(rv, js([]string{"label", rpc}))
	}
	return append(rv, js([]string{"service", rpc}), js([]string{"handler", rpc, in}))
}

type progAsk struct {
	Id   string            `json:"id,omitempty"`
	N    int64             `json:"n,omitempty"`
	Tags []string          `json:"tags,omitempty"`
	Sub  map[string]string `json:"sub,omitempty"`
}

func (x *progRun) calls(t, callerBin string, n int) {
	s := x.set[t]
	cmd := exec.Command(callerBin, t, fmt.Sprintf("127.0.0.1:%d", s.port))
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	defer func() {
		in.Close()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		cmd.Wait()
	}()
	lines := bufio.NewScanner(out)
	lines.Buffer(nil, 1<<20)
	for i := 0; i < n; i++ {
		rpc := pick(x.r, x.p.rpcs(t))
		ask := progAsk{Id: fmt.Sprintf("id%d", x.r.Intn(1000)), N: int64(x.r.Intn(100)), Tags: []string{"a", "b"}[:x.r.Intn(3)]}
		if x.r.Intn(2) == 0 {
			ask.Sub = map[string]string{"x": "y"}
		}
		msg := js(ask)
		seen := len(x.events())
		fmt.Fprintf(in, "{\"Rpc\":%q,\"In\":%s}\n", rpc, msg)
		if !lines.Scan() {
			x.fail("a call of the running server ends the caller", map[string]interface{}{"transport": t, "rpc": rpc})
			return
		}
		var reply struct {
			Out struct {
				progAsk
				By string `json:"by"`
			}
			Err string
		}
		json.Unmarshal(lines.Bytes(), &reply)
		want := progAsk{Id: "re:" + ask.Id, N: ask.N + 1, Tags: ask.Tags, Sub: ask.Sub}
		if reply.Err != "" || js(reply.Out.progAsk) != js(want) || reply.Out.By != rpc {
			x.fail("a call of the running server is not answered by the user's handler", map[string]interface{}{"transport": t, "rpc": rpc, "sent": msg, "answer": lines.Text()})
			return
		}
		ev := x.events()[seen:]
		tr := x.p.trace(t, rpc, msg)
		x.want = append(x.want, tr...)
		if js(ev) != js(tr) {
			x.fail("a call does not pass through the user's options, middlewares, service wrapper and handler", map[string]interface{}{"transport": t, "rpc": rpc, "want": tr, "got": ev})
			return
		}
		x.h.Count("calls by "+t, 1)
	}
}

// end sends a signal and looks how the program ends.
func (x *progRun) end() {
	sig := pick(x.r, []syscall.Signal{syscall.SIGINT, syscall.SIGTERM})
	if x.ended(0) {
		x.fail("the server program ends of itself", nil)
		return
	}
	x.cmd.Process.Signal(sig)
	if !x.ended(progLimit) {
		x.fail("the server program does not end at a signal", map[string]interface{}{"signal": sig.String()})
		return
	}
	if ws := x.cmd.ProcessState.Sys().(syscall.WaitStatus); ws.Signaled() || !strings.Contains(x.out.String(), sig.String()) {
		x.fail("the server program does not say why it ends", map[string]interface{}{"signal": sig.String(), "state": x.cmd.ProcessState.String()})
	}
	x.h.Count("ended by a signal", 1)
}

func (x *progRun) serve(caller string) {
	x.start(pick(x.r, [][]string{nil, {"GOGC=1"}, {"GOMAXPROCS=1"}})...)
	defer x.kill()
	if !x.up() {
		return
	}
	serving := false
	for _, t := range []string{"http", "grpc", "nats"} {
		if x.set[t].port != 0 && !x.bad {
			serving = true
			x.calls(t, caller, 4)
		}
	}
	if x.bad {
		return
	}
	if s := x.set["debug"]; s.port != 0 {
		if resp, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/cmdline", s.port)); err != nil {
			x.fail("the debug server does not answer", map[string]interface{}{"error": err.Error()})
		} else {
			buf, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.StatusCode != 200 || !strings.HasPrefix(string(buf), x.bin) {
				x.fail("the debug server does not show the program", map[string]interface{}{"status": resp.StatusCode, "body": clip(string(buf), 300)})
			}
		}
		for path, says := range map[string]string{"": "goroutine", "goroutine?debug=1": "goroutine profile:", "heap?debug=1": "heap profile", "symbol": "num_symbols",
			"trace?seconds=0.01": "go 1.", "profile?seconds=1": "\x1f\x8b"} {
			if x.bad || strings.HasPrefix(path, "profile") && x.r.Intn(4) > 0 {
				continue
			}
			resp, err := http.Get(fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/%s", s.port, path))
			if err != nil {
				x.fail("the debug server does not answer", map[string]interface{}{"error": err.Error()})
				break
			}
			buf, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if resp.StatusCode != 200 || !strings.Contains(string(buf), says) {
				x.fail("the debug server has no such profile", map[string]interface{}{"path": path, "status": resp.StatusCode, "body": clip(string(buf), 300)})
			}
			x.h.Count("profiles asked for", 1)
		}
	}
	given := false
	for t, s := range x.set {
		given = given || t != "debug" && s.addr != ""
		for _, p := range s.losers {
			if t != "nats" && listening(p) {
				x.fail("the server program listens at an address which does not count", map[string]interface{}{"transport": t, "port": p})
			}
		}
	}
	if x.b[1].connections() > 0 {
		x.fail("the server program connects to a broker which does not count", nil)
	}
	if x.set["nats"].port == 0 && x.b[0].connections() > 0 {
		x.fail("the server program connects to a broker though it has no NATS transport", nil)
	}
	if !serving && !given {
		deadline := time.Now().Add(progLimit)
		for !strings.Contains(x.out.String(), "no server to run") && time.Now().Before(deadline) {
			time.Sleep(5 * time.Millisecond)
		}
		if !strings.Contains(x.out.String(), "no server to run") {
			x.fail("the server program does not say that it has nothing to serve", nil)
		}
		x.h.Count("runs without an address", 1)
		if x.ended(0) {
			return
		}
		time.Sleep(time.Second) // its handler of signals
	} else if !serving {
		time.Sleep(time.Second)
	}
	if strings.Contains(x.out.String(), "no server to run") && given {
		x.fail("the server program says it has nothing to serve though it has", nil)
	}
	if !x.bad {
		x.end()
	}
	if got := x.events(); !x.bad && js(got) != js(x.want) && len(got)+len(x.want) > 0 {
		x.fail("the events of a run are not those of its calls", map[string]interface{}{"want": len(x.want), "got": len(got)})
	}
}

// broken makes one address bad; the program is to end and say why.
func (x *progRun) broken() {
	var ts []string
	for t, s := range x.set {
		if s.port != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return
	}
	t := pickSorted(x.r, ts)
	s := x.set[t]
	var why string
	if t == "nats" && x.r.Intn(2) == 0 {
		n := 1 + x.r.Intn(len(x.p.rpcs("nats")))
		x.env = append(x.env, fmt.Sprintf("VERIF_NATS_REFUSE=%d", n))
		why = fmt.Sprint("a broker which refuses subscription ", n)
	} else if t == "nats" {
		x.b[0].ln.Close()
		why = "no broker"
	} else if x.r.Intn(2) == 0 {
		ln, err := net.Listen("tcp", fmt.Sprintf(":%d", s.port))
		if err != nil {
			return
		}
		defer ln.Close()
		why = "address in use"
	} else {
		bad := pick(x.r, []string{"127.0.0.1:99999", "nonsense", "127.0.0.1:http:1", "256.256.256.256:80"})
		why = "bad address " + bad
		x.args = append(x.args, "-"+t+".addr="+bad)
	}
	x.start()
	defer x.kill()
	if !x.ended(progLimit) {
		x.fail("the server program goes on though a transport cannot be served", map[string]interface{}{"transport": t, "why": why})
		return
	}
	if !regexp.MustCompile(`exit .*(in use|address|port|lookup|refused|dial|listen)`).MatchString(x.out.String()) {
		x.fail("the server program does not say which error ends it", map[string]interface{}{"transport": t, "why": why})
	}
	x.h.Count("ended by a failing transport: "+t, 1)
}

func pickSorted(r *rand.Rand, s []string) string {
	best := ""
	for _, t := range []string{"http", "grpc", "nats", "debug"} {
		for _, u := range s {
			if t == u && (best == "" || r.Intn(2) == 0) {
				best = t
			}
		}
	}
	return best
}

// client runs the generated client program against the server, where a call
// may fail, or nothing serve at an address.
func (x *progRun) client(clientBin string) {
	type call struct{ t, rpc string }
	var calls []call
	for _, t := range []string{"grpc", "http", "nats"} {
		if x.p.has(t) {
			for _, rpc := range x.p.rpcs(t) {
				calls = append(calls, call{t, rpc})
			}
		}
	}
	failAt, gone := 0, ""
	switch x.r.Intn(5) {
	case 0, 1:
		// a NATS client never learns that its call failed, see known findings
		failAt = x.r.Intn(len(calls)) + 1
		if calls[failAt-1].t == "nats" {
			failAt = 0
		}
	case 2:
		// a gRPC client waits for its server
		gone = pick(x.r, []string{"http", "nats"})
		if !x.p.has(gone) {
			gone = ""
		}
	}
	x.start(fmt.Sprintf("VERIF_FAIL=%d", failAt))
	defer x.kill()
	if !x.up() {
		return
	}
	var args, want, says []string
	for _, t := range []string{"grpc", "http", "nats"} {
		a := "127.0.0.1:1"
		if x.p.has(t) {
			a = fmt.Sprintf("127.0.0.1:%d", x.set[t].port)
			if t == gone {
				a = fmt.Sprintf("127.0.0.1:%d", freePort())
			}
			if t == "http" && x.r.Intn(2) == 0 {
				a = "http://" + a
			}
		}
		args = append(args, "-"+t+".addr="+a)
	}
	fail := ""
	for i, c := range calls {
		if c.t == gone {
			break
		}
		want = append(want, x.p.trace(c.t, c.rpc, "{}")...)
		if i+1 == failAt {
			fail = c.rpc
			break
		}
		says = append(says, fmt.Sprintf("[Baron.%sClient] %s.%s result=", map[string]string{"grpc": "GRPC", "http": "HTTP", "nats": "NATS"}[c.t], goCamel(x.p.f.Svc.Name), c.rpc))
	}
	res := commandX(2*time.Minute, nil, x.dir, []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}, "", clientBin, args...)
	x.h.Eval(x.p.f.Text()+fmt.Sprint(failAt, gone)+js(args), true)
	d := map[string]interface{}{"client args": args, "exit": res.Code, "client output": tail(res.Out+res.Err, 2000), "failing": fail, "not served": gone}
	switch {
	case fail == "" && gone == "" && res.Code != 0,
		(fail != "" || gone != "") && res.Code == 0,
		fail != "" && !strings.Contains(res.Err+res.Out, "verif failure of "+fail),
		gone != "" && !regexp.MustCompile("(?i)refused|no server|connect").MatchString(res.Err+res.Out):
		x.fail("the client program does not tell how its calls end", d)
		return
	}
	if got := x.events(); js(got) != js(want) {
		d["want"], d["got"] = want, got
		x.fail("the client program does not call each rpc once by each transport", d)
		return
	}
	pos := 0
	for _, s := range says {
		i := strings.Index((res.Out + res.Err)[pos:], s)
		if i < 0 {
			d["missing"] = s
			x.fail("the client program does not say what its calls return", d)
			return
		}
		pos += i
	}
	if n := strings.Count(res.Out+res.Err, " result="); n != len(says) {
		x.fail("the client program says results of other calls than it made", d)
	}
	x.h.Count("calls of client programs", len(says))
	if fail != "" {
		x.h.Count("client programs which failed as they should: "+calls[failAt-1].t, 1)
	}
	if gone != "" {
		x.h.Count("client programs without a server: "+gone, 1)
	}
}

func runPrograms(h *H, clients bool) {
	n := h.N(8, 24)
	r := h.Rand("services")
	w := h.newWS()
	defer w.Close()
	var ps []*progSvc
	for i := 0; i < n; i++ {
		ps = append(ps, newProg(h, r, i, clients))
	}
	ok := make([]bool, n)
	parallel(n, func(i int) { ok[i] = ps[i].complete(w) })
	for _, o := range ok {
		if !o {
			return
		}
	}
	bin := filepath.Join(w.root, "bins")
	must(os.MkdirAll(bin, 0755))
	if res := w.Go("build", "-o", bin+"/", "./..."); res.Code != 0 {
		h.Violation("the generated code does not compile with a user's", map[string]interface{}{"output": clip(res.Out+res.Err, 3000)})
		return
	}
	h.Count("services built", n)
	runs := h.N(160, 1600)
	type job struct{ x *progRun }
	rs := make([]*rand.Rand, runs)
	for i := range rs {
		rs[i] = rand.New(rand.NewSource(r.Int63()))
	}
	parallelN(runs, 12, func(i int) {
		p := ps[i%n]
		x := &progRun{h: h, p: p, r: rs[i], dir: filepath.Join(w.root, "run", fmt.Sprint(i)), bin: filepath.Join(bin, p.f.lower())}
		must(os.MkdirAll(x.dir, 0755))
		x.logf = filepath.Join(x.dir, "events")
		x.b = [2]*natsBroker{newBroker(), newBroker()}
		defer x.b[0].ln.Close()
		defer x.b[1].ln.Close()
		defer func() {
			if x.cmd != nil {
				x.ended(progLimit)
			}
			if x.unlock != nil {
				x.unlock()
			}
		}()
		serve := map[string]bool{}
		for _, t := range []string{"http", "grpc", "nats"} {
			serve[t] = clients || x.r.Intn(3) > 0
		}
		if !clients && x.r.Intn(12) == 0 {
			serve = map[string]bool{}
		}
		x.configure(serve)
		switch {
		case clients:
			x.client(x.bin + "-client")
		case x.r.Intn(4) == 0:
			h.Eval(p.f.Text()+js(x.args)+js(x.env)+"broken", true)
			x.broken()
		default:
			h.Eval(p.f.Text()+js(x.args)+js(x.env), true)
			x.serve(filepath.Join(bin, fmt.Sprintf("caller%d", p.n)))
		}
		os.RemoveAll(x.dir)
	})
}
