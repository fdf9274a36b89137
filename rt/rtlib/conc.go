package rt

import (
	"context"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { runs["C22"] = runConcurrent }

type (
	protoName = protoreflect.Name
)

const stringKind = protoreflect.StringKind

func stringValue(s string) protoreflect.Value { return protoreflect.ValueOfString(s) }

var keptAnswers sync.Map

// answerFor is the answer to a call, which any caller can work out. It goes by
// the JSON of the message, since the bits of a NaN do not survive text.
func answerFor(m *Method, in proto.Message, token string) (proto.Message, error) {
	f := fnv.New64a()
	f.Write([]byte(m.Go + "|" + token + "|" + fullJS(in)))
	r := rand.New(rand.NewSource(int64(f.Sum64())))
	switch r.Intn(8) {
	case 0:
		return nil, fmt.Errorf("refused %x", f.Sum64())
	case 1:
		// a message the service keeps, and gives to many
		kept, ok := keptAnswers.Load(m)
		if !ok {
			kept, _ = keptAnswers.LoadOrStore(m, genAny(Rand("kept"+where(m)), m.Out, plainJSON))
		}
		return kept.(proto.Message), nil
	}
	return genAny(r, m.Out, plainJSON), nil
}

// runConcurrent calls all services by all their clients at once. Each caller
// knows which answer is its own.
func runConcurrent() {
	bigLeft = 0 // both sides are to work out the same answer
	var inflight, peak, overlaps int64
	var seq int64
	type sub struct {
		via    string
		s      *Service
		client interface{}
		ctx    bool // carries metadata
	}
	var subs []sub
	handled := map[string]int{}
	var hmu sync.Mutex
	key := func(s *Service, rpc string, in proto.Message) string {
		return s.Name + "." + rpc + "|" + fullJS(in)
	}
	for _, s := range Services {
		s := s
		handler := func(ctx context.Context, rpc string, in proto.Message) (proto.Message, error) {
			n := atomic.AddInt64(&inflight, 1)
			defer atomic.AddInt64(&inflight, -1)
			if n > 1 {
				atomic.AddInt64(&overlaps, 1)
			}
			for {
				p := atomic.LoadInt64(&peak)
				if n <= p || atomic.CompareAndSwapInt64(&peak, p, n) {
					break
				}
			}
			m := s.method(rpc)
			hmu.Lock()
			handled[key(s, rpc, in)]++
			hmu.Unlock()
			time.Sleep(time.Duration(atomic.AddInt64(&seq, 1)%7) * 100 * time.Microsecond)
			token, _ := ctx.Value("x-token").(string)
			return answerFor(m, in, token)
		}
		eps := s.Endpoints(handler)
		httpOK := false
		for _, m := range s.Methods {
			httpOK = httpOK || len(m.Bindings) > 0
		}
		if httpOK {
			srv := httptest.NewServer(s.HTTP(eps))
			defer srv.Close()
			hc := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
			c, err := s.HTTPClient(srv.URL, hc, metaKeys...)
			if err != nil {
				Fatal("%v", err)
			}
			subs = append(subs, sub{"HTTP", s, c, true})
		}
		if s.GRPC != nil {
			conn, srv := grpcPair(s, eps)
			defer srv.Stop()
			defer conn.Close()
			c, err := s.GRPCClient(conn, metaKeys...)
			if err != nil {
				Fatal("%v", err)
			}
			subs = append(subs, sub{"gRPC", s, c, true})
		}
		if s.NATS != nil {
			url, nc := natsConn()
			defer nc.Close()
			if err := s.NATS(nc, eps); err != nil {
				Fatal("%v", err)
			}
			_ = url
			c, err := s.NATSClient(nc)
			if err != nil {
				Fatal("%v", err)
			}
			subs = append(subs, sub{"NATS", s, c, false})
		}
		subs = append(subs, sub{"endpoints", s, eps, true})
	}
	// The callers. HTTP calls only carry what a binding can.
	sent := map[string]int{}
	var smu sync.Mutex
	var wg sync.WaitGroup
	callers := 4
	request := func(r *rand.Rand, sb sub, m *Method) proto.Message {
		if sb.via != "HTTP" {
			return genAny(r, m.In, plainJSON)
		}
		if len(m.Bindings) == 0 {
			return nil
		}
		return commonRequest(r, m)
	}
	for si, sb := range subs {
		// messages which several callers send, perhaps at once
		shared := map[*Method]proto.Message{}
		sr := Rand(fmt.Sprint("shared", si))
		for _, m := range sb.s.Methods {
			shared[m] = request(sr, sb, m)
		}
		for g := 0; g < callers; g++ {
			wg.Add(1)
			go func(si, g int, sb sub, shared map[*Method]proto.Message) {
				defer wg.Done()
				r := Rand(fmt.Sprint("caller", si, "/", g))
				for i := 0; i < Conf.N; i++ {
					m := sb.s.Methods[r.Intn(len(sb.s.Methods))]
					var in proto.Message
					if r.Intn(4) == 0 {
						in = shared[m]
						Count("concurrent calls with a message others send too", 1)
					} else {
						in = request(r, sb, m)
					}
					if in == nil {
						continue
					}
					token := ""
					ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
					if sb.ctx {
						token = fmt.Sprintf("t%d-%d-%d", si, g, i)
						ctx = context.WithValue(ctx, "x-token", token)
					}
					want, werr := answerFor(m, in, token)
					smu.Lock()
					sent[key(sb.s, m.Go, in)]++
					smu.Unlock()
					before := JS(in)
					got, err := Call(sb.client, ctx, m.Go, in)
					cancel()
					Eval(sb.via + where(m) + before + token)
					Count("concurrent calls by "+sb.via, 1)
					d := map[string]interface{}{"via": sb.via, "rpc": where(m), "sent": before, "token": token, "got": JS(got), "error": fmt.Sprint(err), "want": JS(want), "wantError": fmt.Sprint(werr)}
					switch {
					case werr != nil && sb.via == "NATS":
						// C21 says what becomes of errors there
					case werr != nil && (err == nil || !contains(err.Error(), werr.Error())):
						Violation("of concurrent calls one gets another error than its own", d)
					case werr == nil && err != nil:
						Violation("of concurrent calls one fails", d)
					case werr == nil && !proto.Equal(got, want):
						Violation("of concurrent calls one gets another answer than its own", d)
					}
				}
			}(si, g, sb, shared)
		}
	}
	wg.Wait()
	hmu.Lock()
	defer hmu.Unlock()
	for k, n := range sent {
		if handled[k] != n {
			Violation("of concurrent calls some are handled more or less often than made", map[string]interface{}{"call": fmt.Sprintf("%q", k), "made": n, "handled": handled[k]})
			break
		}
	}
	for k := range handled {
		if sent[k] == 0 {
			Violation("a handler gets a message nobody sent", map[string]interface{}{"call": fmt.Sprintf("%q", k)})
			break
		}
	}
	Count("calls which overlapped others", int(overlaps))
	Count("most calls at once", int(peak))
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// commonRequest makes a request which all bindings of an rpc can carry, since
// which of them the client takes is not known.
func commonRequest(r *rand.Rand, m *Method) proto.Message {
	in := m.In.New()
	fs := in.Descriptor().Fields()
	for _, b := range m.Bindings {
		if b.Verb == "HEAD" {
			return nil
		}
	}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		place := ""
		for _, b := range m.Bindings {
			switch p := b.Place(fd); {
			case p == "path" || p == "query" && place != "path" || place == "":
				place = p
			}
		}
		switch {
		case place == "path":
			in.Set(fd, genScalar(r, fd, pathValue))
		case r.Intn(3) == 0 || fd.ContainingOneof() != nil && !fd.ContainingOneof().IsSynthetic():
		default:
			genField(r, in, fd, queryValue, 0)
		}
	}
	for _, b := range m.Bindings {
		dropForClient(b, in.Interface())
	}
	return in.Interface()
}
