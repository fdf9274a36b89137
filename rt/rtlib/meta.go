package rt

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { runs["C21"] = runMeta }

// Errors of all the kinds the generated code tells apart.
type codeErr struct {
	error
	code int
}

func (e codeErr) StatusCode() int { return e.code }

type headErr struct {
	error
	h http.Header
}

func (e headErr) Headers() http.Header { return e.h }

type jsonErr struct {
	error
	js  string
	bad bool
}

func (e jsonErr) MarshalJSON() ([]byte, error) {
	if e.bad {
		return nil, errors.New("no JSON")
	}
	return []byte(e.js), nil
}

type codeHeadErr struct {
	error
	code int
	h    http.Header
}

func (e codeHeadErr) StatusCode() int      { return e.code }
func (e codeHeadErr) Headers() http.Header { return e.h }

type allErr struct {
	error
	code int
	h    http.Header
	js   string
}

func (e allErr) StatusCode() int              { return e.code }
func (e allErr) Headers() http.Header         { return e.h }
func (e allErr) MarshalJSON() ([]byte, error) { return []byte(e.js), nil }

type wantErr struct {
	err  error
	code int
	h    http.Header
	body string // JSON, or none for the message
}

func genErr(r *rand.Rand) wantErr {
	text := genString(r) + fmt.Sprint(r.Intn(1000))
	code := []int{400, 401, 403, 404, 409, 418, 422, 429, 500, 501, 502, 503, 504, 599, 201, 202, 299, 300}[r.Intn(18)]
	h := http.Header{"X-Why": {fmt.Sprint("v", r.Intn(100))}, "Retry-After": {fmt.Sprint(r.Intn(100))}}
	switch r.Intn(4) {
	case 0:
		h["Www-Authenticate"] = []string{"Basic", "Bearer x=" + fmt.Sprint(r.Intn(100)), "Basic"}
	case 1:
		h["x-lower-case"] = []string{fmt.Sprint("l", r.Intn(100))}
	case 2:
		h["X-Empty"] = []string{""}
		h["Set-Cookie"] = []string{"a=1", fmt.Sprint("b=", r.Intn(100))}
	}
	js := fmt.Sprintf(`{"code":%d,"what":"w%d"}`, r.Intn(100), r.Intn(100))
	base := errors.New(text)
	switch r.Intn(7) {
	case 0:
		return wantErr{codeErr{base, code}, code, nil, ""}
	case 1:
		return wantErr{headErr{base, h}, 500, h, ""}
	case 2:
		return wantErr{jsonErr{base, js, false}, 500, nil, js}
	case 3:
		return wantErr{jsonErr{base, js, true}, 500, nil, ""}
	case 4:
		return wantErr{codeHeadErr{base, code, h}, code, h, ""}
	case 5:
		return wantErr{allErr{base, code, h, js}, code, h, js}
	}
	return wantErr{base, 500, nil, ""}
}

const metaChars = "abcXYZ019-_.:/+= ~!@#$%^&*()[]{}<>?;'|"

func genMeta(r *rand.Rand) map[string]string {
	m := map[string]string{}
	for _, k := range []string{"x-token", "trace-id", "user", "x-a-b-c", "auth9", "x.dot-v.w", "under_score"} {
		if r.Intn(3) > 0 {
			n := 1 + r.Intn(12)
			v := make([]byte, n)
			for i := range v {
				v[i] = metaChars[r.Intn(len(metaChars))]
			}
			m[k] = strings.TrimSpace(string(v)) + "."
		}
	}
	return m
}

// MarkHTTP and MarkGRPC are options of the servers, besides the generated ones.
func MarkHTTP(ctx context.Context, _ *http.Request) context.Context { return mark(ctx, "HTTP") }
func MarkGRPC(ctx context.Context, _ metadata.MD) context.Context   { return mark(ctx, "gRPC") }

type optionKey struct{}

func mark(ctx context.Context, text string) context.Context {
	if v, ok := ctx.Value(optionKey{}).(string); ok {
		text += v
	}
	return context.WithValue(ctx, optionKey{}, text)
}

// checkCtx judges what a handler sees of the metadata sent.
func checkCtx(via string, m *Method, ctx context.Context, sent map[string]string, all []string) {
	if v, _ := ctx.Value(optionKey{}).(string); !strings.HasPrefix(via, v) || v == "" {
		Violation(via+": a server's own option is not used once", map[string]interface{}{"rpc": where(m), "got": v})
	}
	for _, k := range all {
		for _, form := range []string{strings.ToLower(k), http.CanonicalHeaderKey(k)} {
			v, ok := ctx.Value(form).(string)
			Count("context values compared", 1)
			if want, is := sent[k]; is != ok || v != want {
				Violation(via+": a handler sees other metadata than was sent", map[string]interface{}{"rpc": where(m), "key": form, "got": v, "want": want, "sent": sent})
			}
		}
	}
}

var metaKeys = []string{"x-token", "trace-id", "user", "x-a-b-c", "auth9", "x.dot-v.w", "under_score"}

// ctxWith puts the values in a context under the key the client is to send.
func ctxWith(r *rand.Rand, ctx context.Context, sent map[string]string) context.Context {
	for k, v := range sent {
		ctx = context.WithValue(ctx, k, v)
	}
	for _, k := range metaKeys {
		if _, ok := sent[k]; !ok && r.Intn(2) == 0 {
			ctx = context.WithValue(ctx, k, 17) // no string: not sent
		}
	}
	ctx = context.WithValue(ctx, "not-listed", "secret")
	return ctx
}

func runMeta() {
	each(func(s *Service) {
		httpMeta(s)
		if s.GRPC != nil {
			grpcMeta(s)
		}
		if s.NATS != nil {
			natsMeta(s)
		}
	})
}

func httpMeta(s *Service) {
	r := Rand("http" + s.Full)
	log := &Log{}
	h := s.HTTP(s.Endpoints(log.Handler(s)))
	var pathSeen atomic.Value // of the last request on the wire
	pathSeen.Store("")
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		pathSeen.Store(r.URL.Path)
		h.ServeHTTP(w, r)
	}))
	defer srv.Close()
	var client interface{}
	for _, m := range s.Methods {
		if len(m.Bindings) > 0 && client == nil {
			c, err := s.HTTPClient(srv.URL, srv.Client(), metaKeys...)
			if err != nil {
				return
			}
			client = c
		}
	}
	for _, m := range s.Methods {
		for _, b := range m.Bindings {
			for i := 0; i < Conf.N; i++ {
				text := map[string]string{}
				for _, p := range b.Params {
					text[p] = "1"
				}
				path := rawPath(Rand("x"), b, text)
				plainPath := b.Path
				for p := range text {
					plainPath = strings.Replace(plainPath, "{"+p+"}", "1", 1)
				}
				// errors
				w := genErr(r)
				log.Answer(func(*Method) (proto.Message, error) { return nil, w.err })
				log.Take()
				res, body, panicked := serve(h, b.Verb, path, nil)
				Eval(fmt.Sprintf("%s%s%T%d%s", b.Verb, path, w.err, w.code, w.err))
				Count("errors answered by HTTP", 1)
				d := map[string]interface{}{"rpc": where(m), "error": w.err.Error(), "type": fmt.Sprintf("%T", w.err), "status": res.StatusCode, "want": w.code, "body": clip(string(body)), "header": res.Header}
				switch {
				case panicked != "" || len(log.Take()) != 1:
					Violation("HTTP: a call which fails does not reach its handler once", d)
				case res.StatusCode != w.code:
					Violation("HTTP: an error gets another status", d)
				case res.Header.Get("Content-Type") != "application/json; charset=utf-8":
					Violation("HTTP: an error has another content type", d)
				}
				for k, v := range w.h {
					if got := res.Header.Values(k); strings.Join(got, "\n") != strings.Join(v, "\n") || len(got) != len(v) {
						d["headers"] = w.h
						Violation("HTTP: an error lacks its headers", d)
					}
				}
				if w.body != "" {
					if string(body) != w.body {
						Violation("HTTP: an error is answered with other JSON than its own", d)
					}
				} else {
					var e map[string]string
					if err := json.Unmarshal(body, &e); err != nil || len(e) != 1 || e["error"] != w.err.Error() {
						Violation("HTTP: an error is answered with another message", d)
					}
				}
				// metadata, sent raw
				log.Answer(nil)
				sent := genMeta(r)
				req := httptest.NewRequest(b.Verb, path+"?zz=1", nil)
				for k, v := range sent {
					if r.Intn(2) == 0 {
						k = strings.ToUpper(k)
					}
					req.Header.Set(k, v)
					if r.Intn(4) == 0 {
						req.Header.Add(k, "second")
					}
				}
				if r.Intn(3) == 0 {
					// what a request says of itself does not count
					req.Header.Set("request-url", "/elsewhere")
					req.Header.Set("transport", "other")
				}
				h.ServeHTTP(httptest.NewRecorder(), req)
				if calls := log.Take(); len(calls) == 1 {
					checkCtx("HTTP", m, calls[0].Ctx, sent, metaKeys)
					if u, _ := calls[0].Ctx.Value("request-url").(string); u != plainPath {
						Violation("HTTP: a handler sees another request-url", map[string]interface{}{"rpc": where(m), "got": u, "want": plainPath})
					}
					if u, _ := calls[0].Ctx.Value("transport").(string); u != "HTTPJSON" {
						Violation("HTTP: a handler sees another transport", map[string]interface{}{"rpc": where(m), "got": u})
					}
				} else {
					Violation("HTTP: a call with metadata does not reach its handler once", map[string]interface{}{"rpc": where(m), "sent": sent})
				}
			}
		}
		if client == nil || len(m.Bindings) == 0 {
			continue
		}
		b := m.Bindings[0]
		if len(m.Bindings) > 1 || b.Verb == "HEAD" {
			// which binding the client takes is not known here
			head := false
			for _, b := range m.Bindings {
				head = head || b.Verb == "HEAD"
			}
			if head {
				continue
			}
		}
		in := func() proto.Message {
			x := m.In.New()
			for _, b := range m.Bindings {
				for _, p := range b.Params {
					fd := x.Descriptor().Fields().ByName(protoName(p))
					if v := genScalar(r, fd, pathValue); fd.Kind() == stringKind {
						x.Set(fd, stringValue("p1"))
					} else {
						x.Set(fd, v)
					}
				}
			}
			return x.Interface()
		}
		for i := 0; i < Conf.N; i++ {
			w := genErr(r)
			log.Answer(func(*Method) (proto.Message, error) { return nil, w.err })
			log.Take()
			_, err := Call(client, context.Background(), m.Go, in())
			Eval(fmt.Sprintf("client%s%T%d%s", where(m), w.err, w.code, w.err))
			Count("errors seen by HTTP clients", 1)
			d := map[string]interface{}{"rpc": where(m), "error": w.err.Error(), "type": fmt.Sprintf("%T", w.err), "client": fmt.Sprint(err)}
			switch {
			case len(log.Take()) != 1:
				Violation("HTTP: a call of the client does not reach its handler once", d)
			case err == nil:
				Violation("HTTP: a client does not see that its call failed", d)
			case !strings.Contains(err.Error(), fmt.Sprint(w.code)):
				Violation("HTTP: a client does not see the status of an error", d)
			case w.body == "" && !strings.Contains(err.Error(), w.err.Error()):
				Violation("HTTP: a client sees another error than the handler gave", d)
			}
			log.Answer(nil)
			sent := genMeta(r)
			_, err = Call(client, ctxWith(r, context.Background(), sent), m.Go, in())
			if calls := log.Take(); err != nil || len(calls) != 1 {
				Violation("HTTP: a call of the client with metadata fails", map[string]interface{}{"rpc": where(m), "sent": sent, "error": fmt.Sprint(err)})
			} else {
				checkCtx("HTTP client", m, calls[0].Ctx, sent, metaKeys)
				u, _ := calls[0].Ctx.Value("request-url").(string)
				tr, _ := calls[0].Ctx.Value("transport").(string)
				Count("requests' own paths compared", 1)
				if want := pathSeen.Load().(string); u != want || tr != "HTTPJSON" {
					Violation("HTTP client: a handler does not see how it was called", map[string]interface{}{"rpc": where(m), "request-url": u, "want": want, "transport": tr})
				}
				if v := calls[0].Ctx.Value("not-listed"); v != nil {
					Violation("HTTP: a client sends a context value which it is not told to", map[string]interface{}{"rpc": where(m)})
				}
			}
		}
		// a caller who gives up
		log.Answer(func(m *Method) (proto.Message, error) {
			time.Sleep(20 * time.Millisecond)
			return m.Out.New().Interface(), nil
		})
		ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
		if _, err := Call(client, ctx, m.Go, in()); err == nil {
			Violation("HTTP: a call returns a response after its deadline", map[string]interface{}{"rpc": where(m)})
		}
		cancel()
		log.Answer(nil)
		time.Sleep(25 * time.Millisecond)
		log.Take()
	}
}

func grpcMeta(s *Service) {
	r := Rand("grpc" + s.Full)
	log := &Log{}
	conn, srv := grpcPair(s, s.Endpoints(log.Handler(s)))
	defer srv.Stop()
	defer conn.Close()
	client, err := s.GRPCClient(conn, metaKeys...)
	if err != nil {
		return
	}
	for _, m := range s.Methods {
		for i := 0; i < Conf.N; i++ {
			var herr error
			code := codes.Code(1 + r.Intn(16))
			text := genString(r) + fmt.Sprint(r.Intn(1000))
			if r.Intn(3) == 0 {
				herr, code = errors.New(text), codes.Unknown
			} else {
				herr = status.Error(code, text)
			}
			log.Answer(func(*Method) (proto.Message, error) { return nil, herr })
			log.Take()
			got, err := Call(client, context.Background(), m.Go, m.In.New().Interface())
			Eval(fmt.Sprintf("grpc%s%v", where(m), herr))
			Count("errors seen by gRPC clients", 1)
			st, _ := status.FromError(err)
			if len(log.Take()) != 1 || err == nil || got != nil || st.Code() != code || st.Message() != text {
				Violation("gRPC: a client sees another error than the handler gave", map[string]interface{}{"rpc": where(m), "gave": herr.Error(), "got": fmt.Sprint(err)})
			}
			log.Answer(nil)
			sent := genMeta(r)
			if i%2 == 0 {
				_, err = Call(client, ctxWith(r, context.Background(), sent), m.Go, m.In.New().Interface())
			} else {
				md := metadata.New(sent)
				for k := range sent {
					if r.Intn(4) == 0 {
						md.Append(k, "second")
					}
				}
				err = conn.Invoke(metadata.NewOutgoingContext(context.Background(), md), "/"+s.Full+"/"+m.Name, m.In.New().Interface(), m.Out.New().Interface(), grpc.EmptyCallOption{})
			}
			if calls := log.Take(); err != nil || len(calls) != 1 {
				Violation("gRPC: a call with metadata fails", map[string]interface{}{"rpc": where(m), "sent": sent, "error": fmt.Sprint(err)})
			} else {
				checkCtx("gRPC", m, calls[0].Ctx, sent, metaKeys)
				if v := calls[0].Ctx.Value("not-listed"); v != nil {
					Violation("gRPC: a client sends a context value which it is not told to", map[string]interface{}{"rpc": where(m)})
				}
			}
		}
		done := make(chan bool, 1)
		log.Answer(func(m *Method) (proto.Message, error) { return m.Out.New().Interface(), nil })
		_ = done
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if _, err := Call(client, ctx, m.Go, m.In.New().Interface()); status.Code(err) != codes.Canceled {
			Violation("gRPC: a cancelled call does not end as cancelled", map[string]interface{}{"rpc": where(m), "error": fmt.Sprint(err)})
		}
		log.Take()
	}
}

// natsMeta: a failed call must not look like an answered one.
func natsMeta(s *Service) {
	r := Rand("nats" + s.Full)
	log := &Log{}
	_, nc := natsConn()
	defer nc.Close()
	if err := s.NATS(nc, s.Endpoints(log.Handler(s))); err != nil {
		return
	}
	client, err := s.NATSClient(nc)
	if err != nil {
		return
	}
	for _, m := range s.Methods {
		text := "failed " + fmt.Sprint(r.Intn(1000))
		log.Answer(func(*Method) (proto.Message, error) { return nil, errors.New(text) })
		log.Take()
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		got, err := Call(client, ctx, m.Go, m.In.New().Interface())
		cancel()
		n := len(log.Take())
		Eval("nats" + where(m))
		Count("errors seen by NATS clients", 1)
		d := map[string]interface{}{"rpc": where(m), "gave": text, "got": fmt.Sprint(err), "response": JS(got), "handled": n}
		switch {
		case n != 1:
			Violation("NATS: a call which fails does not reach its handler once", d)
		case err == nil && (proto.Equal(got, m.Out.New().Interface()) || onlyErr(got, text)):
			Known("nats-error-lost", fmt.Sprintf("%s: the handler fails with %q, the client returns an empty response and no error", where(m), text))
		case err == nil:
			Violation("NATS: a call which fails returns a response", d)
		}
	}
}

// onlyErr reports whether all a response has is the text of an error, in a
// field named as the error's envelope has it.
func onlyErr(m proto.Message, text string) bool {
	n, other := 0, 0
	m.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if strings.EqualFold(string(fd.Name()), "err") && !fd.IsList() && !fd.IsMap() && fd.Kind() == protoreflect.StringKind && v.String() == text {
			n++
		} else {
			other++
		}
		return true
	})
	return n == 1 && other == 0
}
