package rt

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	nats "github.com/nats-io/nats.go"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
)

func init() { runs["C10"] = runRPC }

// grpcPair serves the endpoints and connects to them.
func grpcPair(s *Service, eps interface{}) (*grpc.ClientConn, *grpc.Server) {
	srv := grpc.NewServer()
	s.GRPC(srv, eps)
	ln := bufconn.Listen(1 << 20)
	go srv.Serve(ln)
	conn, err := grpc.Dial("bufnet", grpc.WithInsecure(), grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return ln.Dial() }))
	if err != nil {
		Fatal("dial: %v", err)
	}
	return conn, srv
}

var brokerCount int64

// natsConn connects to a broker of its own.
func natsConn() (string, *nats.Conn) {
	url := fmt.Sprintf("nats://broker%d", atomic.AddInt64(&brokerCount, 1))
	nc, err := nats.Connect(url)
	if err != nil {
		Fatal("nats: %v", err)
	}
	return url, nc
}

func runRPC() {
	each(func(s *Service) {
		if s.GRPC != nil {
			runGRPC(s)
		}
		if s.NATS != nil {
			runNATS(s)
		}
	})
}

// judge compares what a call did with what it should.
func judge(via string, m *Method, calls []Got, in, want, resp, got proto.Message, err error) {
	Eval(via + where(m) + JS(want))
	Count("calls by "+via, 1)
	d := map[string]interface{}{"via": via, "rpc": where(m), "sent": JS(want), "answered": JS(resp), "returned": JS(got)}
	if err != nil {
		d["error"] = err.Error()
	}
	var rpcs []string
	for _, c := range calls {
		rpcs = append(rpcs, c.Rpc+" "+JS(c.In))
	}
	d["handled"] = rpcs
	switch {
	case len(calls) == 0:
		Violation(via+": a call does not reach the handler", d)
	case len(calls) > 1:
		Violation(via+": a call reaches a handler more than once", d)
	case calls[0].Rpc != m.Go:
		Violation(via+": a call reaches another rpc", d)
	case !proto.Equal(calls[0].In, want):
		d["field"] = diffField(calls[0].In, want)
		Violation(via+": a handler gets another message than was sent", d)
	case err != nil:
		Violation(via+": a call which the handler answers is an error", d)
	case !proto.Equal(got, resp):
		Violation(via+": a caller gets another response than the handler gave", d)
	case in != nil && !proto.Equal(in, want):
		Violation(via+": a call changes the request it is given", d)
	}
}

func runGRPC(s *Service) {
	r := Rand("grpc" + s.Full)
	log := &Log{}
	conn, srv := grpcPair(s, s.Endpoints(log.Handler(s)))
	defer srv.Stop()
	defer conn.Close()
	client, err := s.GRPCClient(conn)
	if err != nil {
		Violation("no gRPC client can be made", map[string]interface{}{"service": s.Name, "error": err.Error()})
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	for _, m := range s.Methods {
		for i := 0; i < Conf.N; i++ {
			in := genAny(r, m.In, anyValue)
			want := proto.Clone(in)
			resp := genAny(r, m.Out, anyValue)
			log.Answer(func(*Method) (proto.Message, error) { return resp, nil })
			log.Take()
			if i%2 == 0 {
				got, err := Call(client, ctx, m.Go, in)
				judge("gRPC client", m, log.Take(), in, want, resp, got, err)
			} else {
				// by what the protobuf definition says
				got := m.Out.New().Interface()
				err := conn.Invoke(ctx, "/"+s.Full+"/"+m.Name, in, got)
				judge("gRPC", m, log.Take(), in, want, resp, got, err)
			}
		}
	}
	// what is not declared
	log.Take()
	for _, name := range []string{"/" + s.Full + "/NoSuchRpc", "/no.such.Service/X"} {
		err := conn.Invoke(ctx, name, s.Methods[0].In.New().Interface(), s.Methods[0].Out.New().Interface())
		if calls := log.Take(); status.Code(err) != codes.Unimplemented || len(calls) > 0 {
			Violation("an undeclared gRPC method is not refused", map[string]interface{}{"method": name, "error": fmt.Sprint(err)})
		}
		Eval(s.Name + name)
	}
}

func runNATS(s *Service) {
	r := Rand("nats" + s.Full)
	url, nc := natsConn()
	defer nc.Close()
	// two servers of one service, which share the requests
	var mu sync.Mutex
	share := [2]int{}
	logs := [2]*Log{{}, {}}
	for i := range logs {
		c, err := nats.Connect(url)
		if err != nil {
			Fatal("nats: %v", err)
		}
		defer c.Close()
		if err := s.NATS(c, s.Endpoints(logs[i].Handler(s))); err != nil {
			Violation("a NATS server cannot be served", map[string]interface{}{"service": s.Name, "error": err.Error()})
			return
		}
	}
	subs := nc.Subjects()
	var want []string
	for _, m := range s.Methods {
		sub := s.Name + "." + m.Go + "|" + s.Name
		want = append(want, sub, sub)
	}
	sort.Strings(subs)
	sort.Strings(want)
	if !reflect.DeepEqual(subs, want) && len(subs)+len(want) > 0 {
		Violation("a NATS server subscribes to other subjects", map[string]interface{}{"service": s.Name, "got": subs, "want": want})
	}
	Eval("subjects" + s.Name)
	client, err := s.NATSClient(nc)
	if err != nil {
		Violation("no NATS client can be made", map[string]interface{}{"service": s.Name, "error": err.Error()})
		return
	}
	take := func() []Got {
		a, b := logs[0].Take(), logs[1].Take()
		mu.Lock()
		share[0] += len(a)
		share[1] += len(b)
		mu.Unlock()
		return append(a, b...)
	}
	total := 0
	for _, m := range s.Methods {
		for i := 0; i < Conf.N; i++ {
			in := genAny(r, m.In, plainJSON)
			want := proto.Clone(in)
			resp := genAny(r, m.Out, plainJSON)
			for _, l := range logs {
				l.Answer(func(*Method) (proto.Message, error) { return resp, nil })
			}
			take()
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			if i%2 == 0 {
				got, err := Call(client, ctx, m.Go, in)
				judge("NATS client", m, take(), in, want, resp, got, err)
			} else {
				buf, err := json.Marshal(in)
				if err != nil {
					Fatal("%v", err)
				}
				got := m.Out.New().Interface()
				msg, err := nc.RequestWithContext(ctx, s.Name+"."+m.Go, buf)
				if err == nil {
					err = json.Unmarshal(msg.Data, got)
				}
				judge("NATS", m, take(), in, want, resp, got, err)
			}
			cancel()
			total++
		}
	}
	if total >= 20 && (share[0] == 0 || share[1] == 0) {
		Violation("NATS servers of one service do not share its requests", map[string]interface{}{"service": s.Name, "shares": share})
	}
	// what is no request
	if len(s.Methods) > 0 {
		m := s.Methods[0]
		for _, junk := range []string{"", "{", "not json", "[1]", "\"x\""} {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			take()
			msg, err := nc.RequestWithContext(ctx, s.Name+"."+m.Go, []byte(junk))
			cancel()
			d := map[string]interface{}{"rpc": where(m), "data": junk}
			if calls := take(); len(calls) > 0 {
				Violation("a NATS message which is no request reaches a handler", d)
			}
			if err != nil {
				d["error"] = err.Error()
				Violation("a NATS message which is no request is not answered", d)
			} else if !strings.Contains(string(msg.Data), "err") {
				d["reply"] = string(msg.Data)
				Violation("a NATS message which is no request is answered without an error", d)
			}
			Eval("junk" + s.Name + junk)
		}
	}
}
