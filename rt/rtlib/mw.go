package rt

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/go-kit/kit/endpoint"
	"google.golang.org/protobuf/proto"
)

func init() { runs["C11"] = runMiddleware }

// trace records in which order middlewares and handlers run.
type trace struct {
	mu sync.Mutex
	ev []string
}

func (t *trace) add(s string) {
	t.mu.Lock()
	t.ev = append(t.ev, s)
	t.mu.Unlock()
}

func (t *trace) take() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	ev := t.ev
	t.ev = nil
	return ev
}

type layer struct {
	name     string
	labeled  bool
	excluded []string
	stop     bool // does not call the next one
}

var errStopped = errors.New("stopped by a middleware")

func runMiddleware() {
	each(func(s *Service) {
		r := Rand(s.Full)
		for i := 0; i < Conf.N; i++ {
			tr := &trace{}
			eps := s.Endpoints(func(ctx context.Context, rpc string, in proto.Message) (proto.Message, error) {
				tr.add("handle " + rpc)
				return s.method(rpc).Out.New().Interface(), nil
			})
			var layers []layer
			for j := 0; j < 1+r.Intn(4); j++ {
				l := layer{name: fmt.Sprint("L", j), labeled: r.Intn(2) == 0, stop: r.Intn(8) == 0}
				mode := r.Intn(4)
				for _, m := range s.Methods {
					if mode == 0 || mode > 1 && r.Intn(2) == 0 {
						l.excluded = append(l.excluded, m.Go)
					}
				}
				if mode == 1 {
					l.excluded = nil
				}
				r.Shuffle(len(l.excluded), func(a, b int) { l.excluded[a], l.excluded[b] = l.excluded[b], l.excluded[a] })
				wrap := func(label string, next endpoint.Endpoint) endpoint.Endpoint {
					return func(ctx context.Context, req interface{}) (interface{}, error) {
						tr.add("enter " + l.name + label)
						if l.stop {
							return nil, errStopped
						}
						rv, err := next(ctx, req)
						tr.add("leave " + l.name + label)
						return rv, err
					}
				}
				if r.Intn(3) == 0 {
					// an endpoint which does not exist
					bad := append(append([]string{}, l.excluded...), []string{"NoSuch", "", strings.ToLower(s.Methods[0].Go) + "x", s.Name}[r.Intn(4)])
					r.Shuffle(len(bad), func(a, b int) { bad[a], bad[b] = bad[b], bad[a] })
					p := func() (p interface{}) {
						defer func() { p = recover() }()
						if l.labeled {
							s.WrapLabel(eps, wrap, bad...)
						} else {
							s.WrapAll(eps, func(next endpoint.Endpoint) endpoint.Endpoint { return wrap("", next) }, bad...)
						}
						return nil
					}()
					Count("exclusions of endpoints which do not exist", 1)
					if p == nil {
						Violation("excluding an endpoint which does not exist does not panic", map[string]interface{}{"service": s.Name, "excluded": bad})
						return
					}
				}
				if l.labeled {
					s.WrapLabel(eps, func(label string, next endpoint.Endpoint) endpoint.Endpoint { return wrap(" "+label, next) }, l.excluded...)
				} else {
					s.WrapAll(eps, func(next endpoint.Endpoint) endpoint.Endpoint { return wrap("", next) }, l.excluded...)
				}
				layers = append(layers, l)
			}
			checkLayers(s, eps, tr, layers)
		}
	})
}

func checkLayers(s *Service, eps interface{}, tr *trace, layers []layer) {
	var h http.Handler
	h = s.HTTP(eps)
	clients := map[string]interface{}{"endpoints": eps}
	if s.GRPC != nil {
		conn, srv := grpcPair(s, eps)
		defer srv.Stop()
		defer conn.Close()
		if c, err := s.GRPCClient(conn); err == nil {
			clients["gRPC"] = c
		}
	}
	if s.NATS != nil {
		_, nc := natsConn()
		defer nc.Close()
		if err := s.NATS(nc, eps); err == nil {
			if c, err := s.NATSClient(nc); err == nil {
				clients["NATS"] = c
			}
		}
	}
	for _, m := range s.Methods {
		var want, leave []string
		stopped := false
		for j := len(layers) - 1; j >= 0 && !stopped; j-- {
			l := layers[j]
			ex := false
			for _, e := range l.excluded {
				ex = ex || e == m.Go
			}
			if ex {
				continue
			}
			label := ""
			if l.labeled {
				label = " " + m.Go
			}
			want = append(want, "enter "+l.name+label)
			if l.stop {
				stopped = true
			} else {
				leave = append([]string{"leave " + l.name + label}, leave...)
			}
		}
		if !stopped {
			want = append(want, "handle "+m.Go)
		}
		want = append(want, leave...)
		check := func(via string, err error) {
			got := tr.take()
			Eval(via + where(m) + strings.Join(want, ","))
			Count("traces by "+via, 1)
			d := map[string]interface{}{"via": via, "rpc": where(m), "trace": got, "want": want, "error": fmt.Sprint(err)}
			if !reflect.DeepEqual(got, want) {
				Violation("a call runs other middlewares than those wrapped around it", d)
			}
			if via != "NATS" && (err != nil) != stopped {
				Violation("the error of a middleware does not reach the caller", d)
			}
		}
		for _, via := range []string{"endpoints", "gRPC", "NATS"} {
			c := clients[via]
			if c == nil {
				continue
			}
			tr.take()
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
			_, err := Call(c, ctx, m.Go, m.In.New().Interface())
			cancel()
			check(via, err)
		}
		for _, b := range m.Bindings {
			tr.take()
			text := map[string]string{}
			for _, p := range b.Params {
				text[p] = "1"
			}
			res, body, _ := serve(h, b.Verb, rawPath(Rand("x"), b, text), nil)
			var err error
			if res.StatusCode != 200 {
				err = fmt.Errorf("status %d: %s", res.StatusCode, body)
			}
			check("HTTP", err)
		}
	}
}
