// Package rt drives generated services with generated messages, and judges what
// their handlers and callers observe. What a service should do it learns from
// the descriptors protoc-gen-go compiled in, never from the code of baron.
package rt

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/go-kit/kit/endpoint"
	nats "github.com/nats-io/nats.go"
	"google.golang.org/genproto/googleapis/api/annotations"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// Handler stands in for the business logic of a service.
type Handler func(ctx context.Context, rpc string, in proto.Message) (proto.Message, error)

// Service is a generated service, as its glue registers it. Endpoints are of
// the type *pb.Endpoints, clients of type pb.XServer.
type Service struct {
	Name string // in Go
	Full string // in protobuf

	Endpoints  func(h Handler) interface{}
	WrapAll    func(eps interface{}, mw endpoint.Middleware, excluded ...string)
	WrapLabel  func(eps interface{}, mw func(string, endpoint.Endpoint) endpoint.Endpoint, excluded ...string)
	HTTP       func(eps interface{}) http.Handler
	HTTPClient func(addr string, hc *http.Client, keys ...string) (interface{}, error)
	GRPC       func(s *grpc.Server, eps interface{})
	GRPCClient func(conn *grpc.ClientConn, keys ...string) (interface{}, error)
	NATS       func(nc *nats.Conn, eps interface{}) error
	NATSClient func(nc *nats.Conn) (interface{}, error)

	Methods []*Method
}

type Method struct {
	Svc      *Service
	Name     string // in protobuf
	Go       string
	In, Out  protoreflect.MessageType
	Bindings []*Binding // the primary first
}

type Binding struct {
	M          *Method
	Verb, Path string
	Body       string
	Params     []string
}

// Place is where the annotation puts a field.
func (b *Binding) Place(fd protoreflect.FieldDescriptor) string {
	name := string(fd.Name())
	for _, p := range b.Params {
		if p == name {
			return "path"
		}
	}
	if b.Body == "*" || b.Body == name {
		return "body"
	}
	return "query"
}

var Services []*Service

func Register(s *Service) { Services = append(Services, s) }

func (s *Service) load() {
	d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(s.Full))
	if err != nil {
		Fatal("no descriptor of %s: %v", s.Full, err)
	}
	ms := d.(protoreflect.ServiceDescriptor).Methods()
	for i := 0; i < ms.Len(); i++ {
		md := ms.Get(i)
		if md.IsStreamingClient() || md.IsStreamingServer() {
			continue
		}
		m := &Method{Svc: s, Name: string(md.Name()), Go: goCamel(string(md.Name())), In: find(md.Input()), Out: find(md.Output())}
		if rule, ok := proto.GetExtension(md.Options(), annotations.E_Http).(*annotations.HttpRule); ok && rule != nil {
			m.add(rule)
			for _, r := range rule.AdditionalBindings {
				m.add(r)
			}
		}
		s.Methods = append(s.Methods, m)
	}
}

func (m *Method) add(r *annotations.HttpRule) {
	b := &Binding{M: m, Body: r.Body}
	switch p := r.Pattern.(type) {
	case *annotations.HttpRule_Get:
		b.Verb, b.Path = "GET", p.Get
	case *annotations.HttpRule_Put:
		b.Verb, b.Path = "PUT", p.Put
	case *annotations.HttpRule_Post:
		b.Verb, b.Path = "POST", p.Post
	case *annotations.HttpRule_Delete:
		b.Verb, b.Path = "DELETE", p.Delete
	case *annotations.HttpRule_Patch:
		b.Verb, b.Path = "PATCH", p.Patch
	case *annotations.HttpRule_Custom:
		b.Verb, b.Path = strings.ToUpper(p.Custom.Kind), p.Custom.Path
	default:
		return
	}
	for _, seg := range strings.Split(b.Path, "/") {
		if name, _ := segParam(seg); name != "" {
			b.Params = append(b.Params, name)
		}
	}
	m.Bindings = append(m.Bindings, b)
}

func find(d protoreflect.MessageDescriptor) protoreflect.MessageType {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		Fatal("no type %s", d.FullName())
	}
	return mt
}

func (s *Service) method(goName string) *Method {
	for _, m := range s.Methods {
		if m.Go == goName {
			return m
		}
	}
	return nil
}

// Call calls an rpc on a client or on endpoints.
func Call(client interface{}, ctx context.Context, goName string, in proto.Message) (out proto.Message, err error) {
	f := reflect.ValueOf(client).MethodByName(goName)
	if !f.IsValid() {
		return nil, fmt.Errorf("no method %s", goName)
	}
	rv := f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(in)})
	if e, ok := rv[1].Interface().(error); ok {
		err = e
	}
	if !rv[0].IsNil() {
		out = rv[0].Interface().(proto.Message)
	}
	return out, err
}

// --- reporting: JSON lines on standard output ---

var (
	repMu  sync.Mutex
	out    = bufio.NewWriterSize(os.Stdout, 1<<16)
	evals  int
	hashes []string
	seen   = map[uint64]bool{}
	counts = map[string]int{}
	vios   = map[string]int{}
	nsamp  int
)

func emit(v map[string]interface{}) {
	buf, err := json.Marshal(v)
	if err != nil {
		buf, _ = json.Marshal(map[string]interface{}{"t": v["t"], "key": v["key"], "detail": fmt.Sprint(v["detail"])})
	}
	out.Write(append(buf, '\n'))
}

// Violation reports what fails; key should be the same for the same fault.
func Violation(key string, detail map[string]interface{}) {
	repMu.Lock()
	defer repMu.Unlock()
	vios[key]++
	if vios[key] > 1 || len(vios) > 40 {
		return
	}
	emit(map[string]interface{}{"t": "violation", "key": key, "detail": detail})
	out.Flush()
}

func Known(id, what string) {
	repMu.Lock()
	defer repMu.Unlock()
	emit(map[string]interface{}{"t": "known", "id": id, "what": what})
}

// Eval counts one case, and whether it is another one than those before.
func Eval(key string) {
	f := fnv.New64a()
	f.Write([]byte(key))
	repMu.Lock()
	defer repMu.Unlock()
	evals++
	if h := f.Sum64(); !seen[h] {
		seen[h] = true
		hashes = append(hashes, strconv.FormatUint(h, 16))
	}
}

func Count(name string, n int) {
	repMu.Lock()
	counts[name] += n
	repMu.Unlock()
}

func Sample(v map[string]interface{}) {
	repMu.Lock()
	defer repMu.Unlock()
	if nsamp++; nsamp <= 4 {
		emit(map[string]interface{}{"t": "sample", "v": v})
	}
}

func Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver error: "+format+"\n", a...)
	os.Exit(2)
}

// JS renders a message for a report.
func JS(m proto.Message) string {
	s := fullJS(m)
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func fullJS(m proto.Message) string {
	if m == nil || reflect.ValueOf(m).IsNil() {
		return "<nil>"
	}
	buf, err := protojson.MarshalOptions{UseProtoNames: true, AllowPartial: true}.Marshal(m)
	if err != nil {
		return fmt.Sprintf("%+v", m)
	}
	return string(buf)
}

// Config of a run, given as JSON in the first argument.
type Config struct {
	Check string
	Seed  int64
	N     int // cases for each method or binding
	Arg   string
}

var Conf Config

func Rand(name string) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%s/%s/%d", Conf.Check, name, Conf.Seed)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

var runs = map[string]func(){}

func Main() {
	if err := json.Unmarshal([]byte(os.Args[1]), &Conf); err != nil {
		Fatal("%v", err)
	}
	sort.Slice(Services, func(i, j int) bool { return Services[i].Full < Services[j].Full })
	for _, s := range Services {
		s.load()
	}
	run := runs[Conf.Check]
	if run == nil {
		Fatal("no check %s", Conf.Check)
	}
	run()
	repMu.Lock()
	defer repMu.Unlock()
	for k, n := range vios {
		if n > 1 {
			counts["repeats of: "+k] = n - 1
		}
	}
	emit(map[string]interface{}{"t": "end", "evals": evals, "hashes": hashes, "counts": counts})
	out.Flush()
}

// each runs f on all services at once, at most 8 at a time.
func each(f func(s *Service)) {
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, s := range Services {
		wg.Add(1)
		sem <- true
		go func(s *Service) {
			defer func() { <-sem; wg.Done() }()
			f(s)
		}(s)
	}
	wg.Wait()
}

// goCamel is how protoc-gen-go spells a protobuf name in Go.
func goCamel(s string) string {
	var b []byte
	lower := func(c byte) bool { return 'a' <= c && c <= 'z' }
	digit := func(c byte) bool { return '0' <= c && c <= '9' }
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// Log records the calls handlers get.
type Log struct {
	mu    sync.Mutex
	calls []Got
	// what to answer; nil: an empty response
	answer func(m *Method) (proto.Message, error)
}

type Got struct {
	Rpc string // in Go
	In  proto.Message
	Ctx context.Context
}

func (l *Log) Handler(s *Service) Handler {
	return func(ctx context.Context, rpc string, in proto.Message) (proto.Message, error) {
		l.mu.Lock()
		l.calls = append(l.calls, Got{rpc, proto.Clone(in), ctx})
		answer := l.answer
		l.mu.Unlock()
		m := s.method(rpc)
		if m == nil {
			Violation("a handler is called for an unknown rpc", map[string]interface{}{"rpc": rpc})
			return nil, fmt.Errorf("unknown rpc")
		}
		if answer == nil {
			return m.Out.New().Interface(), nil
		}
		return answer(m)
	}
}

// Take returns the calls since the last time.
func (l *Log) Take() []Got {
	l.mu.Lock()
	defer l.mu.Unlock()
	c := l.calls
	l.calls = nil
	return c
}

func (l *Log) Answer(f func(m *Method) (proto.Message, error)) {
	l.mu.Lock()
	l.answer = f
	l.mu.Unlock()
}
