package rt

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() {
	runs["C07"] = runDecode
	runs["C08"] = runRoundTrip
	runs["C09"] = runRouting
}

// scalarText is the text of a scalar in a path or a query.
func scalarText(r *rand.Rand, fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.EnumKind:
		return strconv.Itoa(int(v.Enum()))
	case protoreflect.FloatKind:
		return strconv.FormatFloat(v.Float(), "gGfe"[r.Intn(4)], -1, 32)
	case protoreflect.DoubleKind:
		return strconv.FormatFloat(v.Float(), "gGfe"[r.Intn(4)], -1, 64)
	case protoreflect.BoolKind:
		if r.Intn(4) == 0 {
			return strconv.Itoa(map[bool]int{true: 1}[v.Bool()])
		}
		return fmt.Sprint(v.Bool())
	case protoreflect.StringKind:
		return v.String()
	}
	return fmt.Sprint(v.Interface())
}

// intText spells an integer in another way at times.
func intText(r *rand.Rand, fd protoreflect.FieldDescriptor, s string) string {
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind, protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind,
		protoreflect.Uint32Kind, protoreflect.Fixed32Kind, protoreflect.Uint64Kind, protoreflect.Fixed64Kind, protoreflect.EnumKind:
		if r.Intn(6) == 0 {
			sign := ""
			if strings.HasPrefix(s, "-") {
				sign, s = "-", s[1:]
			}
			return sign + []string{"0", "00"}[r.Intn(2)] + s
		}
	}
	return s
}

// pctEncode escapes s, and sometimes more of it than needed.
func pctEncode(r *rand.Rand, s string, path bool) string {
	switch r.Intn(4) {
	case 0:
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, []string{"%%%02X", "%%%02x"}[r.Intn(2)], s[i])
		}
		return b.String()
	case 1:
		if !path {
			return strings.Replace(url.QueryEscape(s), "+", "%20", -1)
		}
	}
	if path {
		return url.PathEscape(s)
	}
	return url.QueryEscape(s)
}

// pathOf is the path of the binding with the values of m, not escaped.
func rawPath(r *rand.Rand, b *Binding, text map[string]string) string {
	segs := strings.Split(b.Path, "/")
	for i, seg := range segs {
		if name, verb := segParam(seg); name != "" {
			segs[i] = pctEncode(r, text[name], true) + verb
		}
	}
	return strings.Join(segs, "/")
}

// a is one raw request and what its handler should be given
type rawRequest struct {
	Verb, Target string
	Body         []byte
	Want         proto.Message
}

func (q *rawRequest) detail(m *Method) map[string]interface{} {
	d := map[string]interface{}{"rpc": where(m), "request": q.Verb + " " + q.Target, "body": clip(string(q.Body))}
	if q.Want != nil {
		d["want"] = JS(q.Want)
	}
	return d
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

type param struct{ k, v string }

// queryParams spells a field as query parameters, in one of the ways there are.
func queryParams(r *rand.Rand, m protoreflect.Message, fd protoreflect.FieldDescriptor) []param {
	name := string(fd.Name())
	goJSON := func(v interface{}) string {
		buf, err := json.Marshal(v)
		if err != nil {
			Fatal("cannot spell %s: %v", fd.FullName(), err)
		}
		return string(buf)
	}
	v := m.Get(fd)
	if !fd.IsList() {
		switch {
		case fd.Message() != nil:
			return []param{{name, goJSON(v.Message().Interface())}}
		case fd.Kind() == protoreflect.BytesKind:
			return []param{{name, goJSON(v.Bytes())}}
		}
		return []param{{name, intText(r, fd, scalarText(r, fd, v))}}
	}
	l := v.List()
	base := fd.Message() == nil && fd.Kind() != protoreflect.EnumKind && fd.Kind() != protoreflect.BytesKind
	if !base {
		var items []interface{}
		for i := 0; i < l.Len(); i++ {
			switch {
			case fd.Message() != nil:
				items = append(items, l.Get(i).Message().Interface())
			case fd.Kind() == protoreflect.EnumKind:
				items = append(items, int32(l.Get(i).Enum()))
			default:
				items = append(items, l.Get(i).Bytes())
			}
		}
		return []param{{name, goJSON(items)}}
	}
	var items []string
	finite, commas := true, false
	for i := 0; i < l.Len(); i++ {
		s := scalarText(r, fd, l.Get(i))
		if fd.Kind() == protoreflect.FloatKind || fd.Kind() == protoreflect.DoubleKind {
			if strings.ContainsAny(s, "InN") {
				finite = false
			}
		}
		if fd.Kind() == protoreflect.BoolKind {
			s = fmt.Sprint(l.Get(i).Bool()) // JSON
		}
		commas = commas || strings.Contains(s, ",")
		items = append(items, s)
	}
	one := r.Intn(2) == 0
	if fd.Kind() == protoreflect.StringKind {
		if one && !commas {
			return []param{{name, strings.Join(items, ",")}}
		}
	} else if finite && (one || len(items) == 1) {
		for i := range items {
			items[i] = strings.Replace(items[i], "E+", "E", 1)
		}
		if r.Intn(2) == 0 {
			return []param{{name, "[" + strings.Join(items, ",") + "]"}}
		}
		return []param{{name, strings.Join(items, ",")}}
	}
	if !finite && len(items) == 1 {
		return nil
	}
	var ps []param
	for _, s := range items {
		if len(items) > 1 {
			s = intText(r, fd, s)
		}
		ps = append(ps, param{name, s})
	}
	return ps
}

// bodyJSON spells the fields of m which are in the body.
func bodyJSON(r *rand.Rand, m proto.Message) []byte {
	buf, err := protojson.MarshalOptions{
		UseProtoNames:   r.Intn(2) == 0,
		UseEnumNumbers:  r.Intn(2) == 0,
		EmitUnpopulated: r.Intn(4) == 0,
		Multiline:       r.Intn(4) == 0,
	}.Marshal(m)
	if err != nil {
		Fatal("body of %s: %v", JS(m), err)
	}
	if r.Intn(3) == 0 {
		// what the message does not know
		extra := []byte(`{"zz_not_a_field":[1,{"a":null}],"zzOther":{"x":"}"}`)
		rest := bytes.TrimLeft(buf, " \n")[1:]
		if len(bytes.TrimSpace(rest)) > 1 {
			extra = append(extra, ',')
		}
		buf = append(extra, rest...)
	}
	return buf
}

// encodeRaw spells a request for the binding, without any code of baron.
func encodeRaw(r *rand.Rand, b *Binding, in proto.Message) *rawRequest {
	q := &rawRequest{Verb: b.Verb}
	m := in.ProtoReflect()
	want := m.New()
	body := m.New()
	text := map[string]string{}
	var ps []param
	fs := m.Descriptor().Fields()
	hasBody := false
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch b.Place(fd) {
		case "path":
			text[string(fd.Name())] = intText(r, fd, scalarText(r, fd, m.Get(fd)))
			want.Set(fd, m.Get(fd))
		case "query":
			if !m.Has(fd) {
				continue
			}
			p := queryParams(r, m, fd)
			if p == nil {
				continue
			}
			ps = append(ps, p...)
			want.Set(fd, m.Get(fd))
		default:
			hasBody = true
			if m.Has(fd) {
				body.Set(fd, m.Get(fd))
				want.Set(fd, m.Get(fd))
			}
		}
	}
	if r.Intn(4) == 0 {
		ps = append(ps, param{"zz_unknown", "1"})
	}
	// fields which are not in the query are not taken from it
	if r.Intn(4) == 0 {
		for i := 0; i < fs.Len(); i++ {
			if fd := fs.Get(i); b.Place(fd) != "query" {
				ps = append(ps, param{string(fd.Name()), "1"})
			}
		}
	}
	// the order of the parameters of different names makes no difference
	for i := range ps {
		if i+1 < len(ps) && ps[i].k != ps[i+1].k && r.Intn(2) == 0 {
			ok := true
			for j := range ps {
				if j != i && ps[j].k == ps[i].k || j != i+1 && ps[j].k == ps[i+1].k {
					ok = false
				}
			}
			if ok {
				ps[i], ps[i+1] = ps[i+1], ps[i]
			}
		}
	}
	var qs []string
	for _, p := range ps {
		qs = append(qs, pctEncode(r, p.k, false)+"="+pctEncode(r, p.v, false))
	}
	q.Target = rawPath(r, b, text)
	if len(qs) > 0 {
		q.Target += "?" + strings.Join(qs, "&")
	}
	if hasBody {
		if b.Body == "*" && b.Verb != "GET" {
			// the path decides over the body
			if r.Intn(4) == 0 {
				for i := 0; i < fs.Len(); i++ {
					if fd := fs.Get(i); b.Place(fd) == "path" {
						body.Set(fd, genScalar(r, fd, pathValue))
					}
				}
			}
		}
		q.Body = bodyJSON(r, body.Interface())
		empty := true
		body.Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { empty = false; return false })
		if empty && r.Intn(2) == 0 {
			q.Body = nil
		}
	}
	q.Want = want.Interface()
	return q
}

func serve(h http.Handler, verb, target string, body []byte) (*http.Response, []byte, string) {
	var rd io.Reader = http.NoBody
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req := httptest.NewRequest(verb, target, rd)
	rec := httptest.NewRecorder()
	panicked := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				panicked = fmt.Sprint(p)
			}
		}()
		h.ServeHTTP(rec, req)
	}()
	res := rec.Result()
	buf, _ := io.ReadAll(res.Body)
	return res, buf, panicked
}

func runDecode() {
	each(func(s *Service) {
		r := Rand(s.Full)
		log := &Log{}
		h := s.HTTP(s.Endpoints(log.Handler(s)))
		for _, m := range s.Methods {
			for bi, b := range m.Bindings {
				for i := 0; i < Conf.N; i++ {
					in := genRequest(r, b)
					q := encodeRaw(r, b, in)
					resp := genAny(r, m.Out, protoJSON)
					log.Answer(func(*Method) (proto.Message, error) { return resp, nil })
					checkRaw(log, h, m, q, resp)
					if i == 0 && bi == 0 {
						Sample(q.detail(m))
					}
				}
				badRequests(r, log, h, b)
			}
		}
	})
}

// checkRaw sends a good request and judges what its handler and its sender get.
func checkRaw(log *Log, h http.Handler, m *Method, q *rawRequest, resp proto.Message) {
	log.Take()
	res, body, panicked := serve(h, q.Verb, q.Target, q.Body)
	calls := log.Take()
	Eval(q.Verb + q.Target + string(q.Body))
	Count("requests served", 1)
	d := q.detail(m)
	d["status"], d["response"] = res.StatusCode, clip(string(body))
	switch {
	case panicked != "":
		d["panic"] = panicked
		Violation("decoding a request panics", d)
	case len(calls) == 0:
		Violation("a request its annotation describes is refused", d)
	case len(calls) > 1:
		Violation("a handler is called more than once for a request", d)
	case calls[0].Rpc != m.Go:
		d["got"] = calls[0].Rpc
		Violation("a request reaches another rpc", d)
	case !proto.Equal(calls[0].In, q.Want):
		d["got"] = JS(calls[0].In)
		d["field"] = diffField(calls[0].In, q.Want)
		Violation("a handler gets another message than was sent", d)
	case res.StatusCode != 200:
		Violation("a good request gets a bad status", d)
	default:
		checkResponse(d, m, res, body, resp)
	}
}

// diffField describes the first field in which a and b differ.
func diffField(a, b proto.Message) string {
	fs := a.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		x, y := a.ProtoReflect().New(), b.ProtoReflect().New()
		if a.ProtoReflect().Has(fd) {
			x.Set(fd, a.ProtoReflect().Get(fd))
		}
		if b.ProtoReflect().Has(fd) {
			y.Set(fd, b.ProtoReflect().Get(fd))
		}
		if !proto.Equal(x.Interface(), y.Interface()) {
			return fmt.Sprintf("%s %s %s: got %s, want %s", fd.Cardinality(), fd.Kind(), fd.Name(), JS(x.Interface()), JS(y.Interface()))
		}
	}
	return "none"
}

// checkResponse judges the JSON of a response.
func checkResponse(d map[string]interface{}, m *Method, res *http.Response, body []byte, resp proto.Message) {
	if ct := res.Header.Get("Content-Type"); ct != "application/json; charset=utf-8" {
		d["contentType"] = ct
		Violation("a response has another content type", d)
	}
	got := m.Out.New().Interface()
	if err := protojson.Unmarshal(body, got); err != nil {
		d["error"] = err.Error()
		Violation("a response is not the JSON of its message", d)
		return
	}
	if !proto.Equal(got, resp) {
		d["want"] = JS(resp)
		Violation("a sender gets another response than the handler gave", d)
		return
	}
	if isWkt(m.Out.Descriptor()) {
		return // has a JSON of its own
	}
	var keys map[string]json.RawMessage
	json.Unmarshal(body, &keys)
	fs := m.Out.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.HasPresence() && !resp.ProtoReflect().Has(fd) {
			continue // may be null or missing
		}
		raw, ok := keys[string(fd.Name())]
		if !ok {
			d["field"] = fd.Name()
			Violation("a response lacks a field", d)
		}
		if fd.Kind() == protoreflect.EnumKind && !fd.IsList() && !fd.IsMap() {
			if _, err := strconv.Atoi(string(raw)); err != nil {
				d["field"] = fd.Name()
				Violation("a response gives an enum other than by number", d)
			}
		}
	}
}

// badRequests sends what the annotation does not describe: each is to be
// refused, and the handler not to be called.
func badRequests(r *rand.Rand, log *Log, h http.Handler, b *Binding) {
	m := b.M
	log.Answer(nil)
	try := func(kind string, q *rawRequest, status int) {
		log.Take()
		res, body, panicked := serve(h, q.Verb, q.Target, q.Body)
		calls := log.Take()
		Eval("bad" + q.Verb + q.Target + string(q.Body))
		Count("bad requests served", 1)
		q.Want = nil
		d := q.detail(m)
		d["kind"], d["status"], d["response"] = kind, res.StatusCode, clip(string(body))
		if panicked != "" {
			d["panic"] = panicked
			Violation("decoding a bad request panics", d)
			return
		}
		if len(calls) > 0 {
			d["got"] = JS(calls[0].In)
			Violation("a bad request reaches a handler: "+kind, d)
			return
		}
		if res.StatusCode < 400 || status != 0 && res.StatusCode != status {
			Violation("a bad request gets another status: "+kind, d)
		}
		if b.Verb != "HEAD" {
			var e struct{ Error string }
			if err := json.Unmarshal(body, &e); err != nil || e.Error == "" {
				Violation("a bad request is not answered with an error: "+kind, d)
			}
		}
	}
	good := func() *rawRequest {
		for {
			in := genRequest(r, b)
			q := encodeRaw(r, b, in)
			return q
		}
	}
	fs := m.In.Descriptor().Fields()
	var members = map[string][]protoreflect.FieldDescriptor{}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		place := b.Place(fd)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() && place == "query" && !fd.IsMap() {
			members[string(o.Name())] = append(members[string(o.Name())], fd)
		}
		if fd.IsList() || fd.IsMap() || fd.Message() != nil || place == "body" {
			continue
		}
		bad := badTexts(fd)
		if len(bad) == 0 {
			continue
		}
		text := bad[r.Intn(len(bad))]
		if place == "path" && (text == "" || strings.Contains(text, "/")) {
			text = "x"
		}
		in := genRequest(r, b)
		// of a oneof only this member
		if o := fd.ContainingOneof(); o != nil {
			in.ProtoReflect().Clear(fd)
			if w := in.ProtoReflect().WhichOneof(o); w != nil {
				in.ProtoReflect().Clear(w)
			}
		}
		in.ProtoReflect().Clear(fd)
		if place == "query" {
			q := encodeRaw(r, b, in)
			sep := "?"
			if strings.Contains(q.Target, "?") {
				sep = "&"
			}
			q.Target += sep + string(fd.Name()) + "=" + url.QueryEscape(text)
			try("query "+fd.Kind().String(), q, 0)
		} else {
			q := encodeRaw(r, b, in)
			// the path with the bad value
			segs := strings.Split(b.Path, "/")
			have := strings.Split(strings.SplitN(q.Target, "?", 2)[0], "/")
			for j, seg := range segs {
				if name, verb := segParam(seg); name == string(fd.Name()) {
					have[j] = url.PathEscape(text) + verb
				}
			}
			rest := ""
			if j := strings.Index(q.Target, "?"); j >= 0 {
				rest = q.Target[j:]
			}
			q.Target = strings.Join(have, "/") + rest
			try("path "+fd.Kind().String(), q, 0)
		}
	}
	for _, fds := range members {
		if len(fds) < 2 {
			continue
		}
		in := genRequest(r, b)
		if w := in.ProtoReflect().WhichOneof(fds[0].ContainingOneof()); w != nil {
			in.ProtoReflect().Clear(w)
		}
		q := encodeRaw(r, b, in)
		sep := "?"
		if strings.Contains(q.Target, "?") {
			sep = "&"
		}
		// not always the first ones, and not always two
		k := 2 + r.Intn(len(fds)-1)
		for _, i := range r.Perm(len(fds))[:k] {
			fd := fds[i]
			x := m.In.New()
			if fd.Message() != nil {
				x.Mutable(fd)
			} else {
				x.Set(fd, genScalar(r, fd, queryValue))
			}
			p := queryParams(r, x, fd)[0]
			q.Target += sep + url.QueryEscape(p.k) + "=" + url.QueryEscape(p.v)
			sep = "&"
		}
		try("two members of a oneof", q, 0)
	}
	if b.Body != "" {
		for _, junk := range []string{"{", "not json", "[1]", "\"x\"", "{\"a\":}", "{}{}", "\x00"} {
			q := good()
			q.Body = []byte(junk)
			try("a body which is no JSON message", q, 400)
		}
	}
}

func badTexts(fd protoreflect.FieldDescriptor) []string {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return []string{"tru", "yes", "2", "", "on"}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind, protoreflect.EnumKind:
		return []string{"abc", "", "1.5", "2147483648", "-2147483649", "0x1g", "1 ", "١", "0x10", "0b1", "1_0"}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return []string{"abc", "", "1.5", "-1", "4294967296", "+", "1e3", "0x10", "1_0"}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return []string{"abc", "", "1.5", "9223372036854775808", "-9223372036854775809", "--1", "0x10", "0o7", "1_0"}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return []string{"abc", "", "1.5", "-1", "18446744073709551616", "0x10", "1_0"}
	case protoreflect.FloatKind:
		return []string{"abc", "", "1e39", "1,5", "--1"}
	case protoreflect.DoubleKind:
		return []string{"abc", "", "1e400", "1,5", "1.2.3"}
	}
	return nil
}

// --- C08: the generated client and server together ---

// capture records the requests a server gets.
type capture struct {
	h    http.Handler
	last *http.Request
	body []byte
}

func (c *capture) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	buf, _ := io.ReadAll(r.Body)
	r.Body = io.NopCloser(bytes.NewReader(buf))
	c.last, c.body = r.Clone(context.Background()), buf
	c.h.ServeHTTP(w, r)
}

func runRoundTrip() {
	each(func(s *Service) {
		r := Rand(s.Full)
		log := &Log{}
		c := &capture{h: s.HTTP(s.Endpoints(log.Handler(s)))}
		n := 0
		for _, m := range s.Methods {
			n += len(m.Bindings)
		}
		if n == 0 {
			return
		}
		srv := httptest.NewUnstartedServer(c)
		hc, addr := instance(r, srv)
		defer srv.Close()
		client, err := s.HTTPClient(addr, hc)
		if err != nil {
			Violation("no HTTP client can be made", map[string]interface{}{"service": s.Name, "instance": addr, "error": err.Error()})
			return
		}
		for _, m := range s.Methods {
			if len(m.Bindings) == 0 {
				continue
			}
			b := clientBinding(client, c, log, m)
			if b == nil {
				continue
			}
			if b.Verb == "HEAD" {
				Count("bindings whose responses have no body", 1)
				continue
			}
			for i := 0; i < Conf.N; i++ {
				in := genRequest(r, b)
				dropForClient(b, in)
				want := proto.Clone(in)
				resp := genAny(r, m.Out, protoJSON)
				log.Answer(func(*Method) (proto.Message, error) { return resp, nil })
				log.Take()
				c.last = nil
				got, err := Call(client, context.Background(), m.Go, in)
				calls := log.Take()
				Eval(where(m) + JS(want))
				Count("calls of the client", 1)
				d := map[string]interface{}{"rpc": where(m), "binding": b.Verb + " " + b.Path + " body=" + b.Body, "sent": JS(want)}
				if c.last != nil {
					d["request"] = c.last.Method + " " + c.last.RequestURI
					d["body"] = clip(string(c.body))
				}
				if err != nil {
					d["error"] = err.Error()
				}
				switch {
				case len(calls) == 0:
					d["instance"] = addr
					Violation("a call of the client does not reach the handler", d)
				case len(calls) > 1:
					Violation("a call of the client reaches the handler more than once", d)
				case calls[0].Rpc != m.Go:
					d["got"] = calls[0].Rpc
					Violation("a call of the client reaches another rpc", d)
				case !proto.Equal(calls[0].In, want):
					d["got"] = JS(calls[0].In)
					d["field"] = diffField(calls[0].In, want)
					Violation("a handler gets another message than the client was given", d)
				case err != nil:
					Violation("a call which the handler answers is an error", d)
				case !proto.Equal(got, resp):
					d["got"], d["want"] = JS(got), JS(resp)
					Violation("a client returns another response than the handler gave", d)
				case !proto.Equal(in, want):
					Violation("a call changes the request it is given", d)
				default:
					checkWire(d, c, b)
				}
				if i == 0 {
					Sample(d)
				}
			}
			unspeakable(r, client, log, b)
		}
		if s.Full == "probek.Probek" {
			probeFindings(client, log, s)
		}
	})
}

// unspeakable calls the client with messages for the query which have no JSON:
// the handler is to get them, or the caller is to be told.
func unspeakable(r *rand.Rand, client interface{}, log *Log, b *Binding) {
	fs := b.M.In.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if b.Place(fd) != "query" || fd.Message() == nil || fd.IsMap() {
			continue
		}
		var num protoreflect.FieldDescriptor
		for j, sub := 0, fd.Message().Fields(); j < sub.Len(); j++ {
			if k := sub.Get(j); k.Kind() == protoreflect.FloatKind || k.Kind() == protoreflect.DoubleKind {
				num = k
			}
		}
		if num == nil {
			continue
		}
		in := genRequest(r, b)
		dropForClient(b, in)
		m := in.ProtoReflect()
		if o := fd.ContainingOneof(); o != nil {
			if w := m.WhichOneof(o); w != nil {
				m.Clear(w)
			}
		}
		var x protoreflect.Message
		if fd.IsList() {
			x = m.Mutable(fd).List().AppendMutable().Message()
		} else {
			x = m.Mutable(fd).Message()
		}
		v := math.Inf(1 - 2*r.Intn(2))
		nv := protoreflect.ValueOfFloat64(v)
		if num.Kind() == protoreflect.FloatKind {
			nv = protoreflect.ValueOfFloat32(float32(v))
		}
		if num.IsList() {
			x.Mutable(num).List().Append(nv)
		} else {
			x.Set(num, nv)
		}
		want := proto.Clone(in)
		log.Answer(nil)
		log.Take()
		_, err := Call(client, context.Background(), b.M.Go, in)
		calls := log.Take()
		Eval("unspeakable" + where(b.M) + JS(want))
		Count("calls with messages which have no JSON", 1)
		switch {
		case len(calls) == 0 && err != nil:
		case len(calls) == 1 && calls[0].Rpc == b.M.Go && proto.Equal(calls[0].In, want):
		case len(calls) == 0:
			Violation("a call which the client cannot send returns no error", map[string]interface{}{"rpc": where(b.M), "sent": JS(want)})
		default:
			Violation("a handler gets another message than the client was given", map[string]interface{}{"rpc": where(b.M), "sent": JS(want), "got": JS(calls[0].In)})
		}
	}
}

// instance starts the server, and gives it a name as a client may be told it:
// with or without a scheme, and with any host.
func instance(r *rand.Rand, srv *httptest.Server) (*http.Client, string) {
	scheme := "http://"
	if r.Intn(4) == 0 {
		srv.StartTLS()
		scheme = "https://"
	} else {
		srv.Start()
	}
	real := srv.Listener.Addr().String()
	_, port, _ := net.SplitHostPort(real)
	host := []string{"127.0.0.1", "localhost", "http-gateway", "httpd", "https.example.com", "http", "service", "users.default.svc.cluster.local", "[::1]", "HTTP-7"}[r.Intn(10)] + ":" + port
	tr := srv.Client().Transport.(*http.Transport).Clone()
	if tr.TLSClientConfig != nil {
		tr.TLSClientConfig.ServerName = "example.com"
	}
	tr.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		if addr != strings.ToLower(host) && addr != host {
			return nil, fmt.Errorf("the client calls %s and not %s", addr, host)
		}
		return new(net.Dialer).DialContext(ctx, "tcp", real)
	}
	if scheme == "http://" && r.Intn(2) == 0 {
		scheme = ""
	}
	Count("instances named "+scheme+strings.TrimSuffix(host, ":"+port), 1)
	return &http.Client{Transport: tr}, scheme + host
}

// probeFindings calls the client with what the known findings are about.
func probeFindings(client interface{}, log *Log, s *Service) {
	log.Answer(nil)
	for _, p := range []struct {
		id, rpc, in string
		known       func(rpc, got string, err error) bool // how it is known to fail
	}{
		{"one-string-with-comma", "Query", `{"rs":["a,b"]}`, func(rpc, got string, err error) bool {
			return rpc == "Query" && got == `{"rs":["a","b"]}` && err == nil
		}},
		{"one-nonfinite-number", "Query", `{"rd":["Infinity"]}`, func(rpc, got string, err error) bool { return rpc == "" && err != nil }},
		{"path-value-dot-dot", "PathX", `{"s":".."}`, func(rpc, got string, err error) bool { return rpc == "Other" && err == nil }},
		{"path-value-with-slash", "Path", `{"s":"v/x"}`, func(rpc, got string, err error) bool { return rpc == "PathX" && got == `{"s":"v"}` && err == nil }},
		{"path-value-empty", "Path", `{"s":""}`, func(rpc, got string, err error) bool { return rpc == "" && err != nil }},
	} {
		m := s.method(p.rpc)
		in := m.In.New().Interface()
		if err := protojson.Unmarshal([]byte(p.in), in); err != nil {
			Fatal("probe: %v", err)
		}
		want := proto.Clone(in)
		log.Take()
		_, err := Call(client, context.Background(), p.rpc, in)
		rpc, got := "", ""
		calls := log.Take()
		if len(calls) > 0 {
			rpc, got = calls[0].Rpc, strings.Replace(JS(calls[0].In), " ", "", -1)
		}
		Count("probes of findings", 1)
		if err == nil && rpc == p.rpc && proto.Equal(calls[0].In, want) {
			continue // repaired
		}
		what := fmt.Sprintf("%s %s: handler %s got %s, error %v", p.rpc, p.in, rpc, got, err)
		if p.known(rpc, got, err) {
			Known(p.id, what)
		} else {
			Violation("a call of the client fails otherwise than known: "+p.id, map[string]interface{}{"what": what})
		}
	}
}

// dropForClient keeps what the known findings are about out of the query.
func dropForClient(b *Binding, in proto.Message) {
	m := in.ProtoReflect()
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if b.Place(fd) != "query" || !m.Has(fd) {
			continue
		}
		// one value which JSON does not have
		if fd.IsList() && (fd.Kind() == protoreflect.FloatKind || fd.Kind() == protoreflect.DoubleKind) && m.Get(fd).List().Len() == 1 {
			l := m.Mutable(fd).List()
			if s := fmt.Sprint(l.Get(0).Float()); strings.ContainsAny(s, "InN") {
				l.Append(l.Get(0))
			}
		}
	}
}

// clientBinding finds out which binding of the rpc the client uses.
func clientBinding(client interface{}, c *capture, log *Log, m *Method) *Binding {
	log.Answer(nil)
	r := Rand("probe")
	in := m.In.New()
	fs := m.In.Descriptor().Fields()
	for _, b := range m.Bindings {
		for _, p := range b.Params {
			fd := fs.ByName(protoreflect.Name(p))
			v := genScalar(r, fd, pathValue)
			if fd.Kind() == protoreflect.StringKind {
				v = protoreflect.ValueOfString("p1")
			}
			in.Set(fd, v)
		}
	}
	c.last = nil
	_, err := Call(client, context.Background(), m.Go, in.Interface())
	log.Take()
	if c.last == nil {
		Violation("a call of the client sends no request", map[string]interface{}{"rpc": where(m), "error": fmt.Sprint(err)})
		return nil
	}
	for _, b := range m.Bindings {
		if _, ok := match(b, c.last.URL.Path); ok && b.Verb == c.last.Method {
			return b
		}
	}
	Violation("a client sends a request to no route of its rpc", map[string]interface{}{"rpc": where(m), "request": c.last.Method + " " + c.last.RequestURI})
	return nil
}

// checkWire judges the request a client sent: each field is where the
// annotation puts it.
func checkWire(d map[string]interface{}, c *capture, b *Binding) {
	vars, ok := match(b, c.last.URL.Path)
	if !ok || c.last.Method != b.Verb {
		Violation("a client sends a request to another route", d)
		return
	}
	_ = vars
	if b.Verb == "GET" && len(c.body) > 0 {
		Violation("a client sends a body with GET", d)
	}
	fs := b.M.In.Descriptor().Fields()
	for k := range c.last.URL.Query() {
		fd := fs.ByName(protoreflect.Name(k))
		if fd == nil {
			d["param"] = k
			Violation("a client sends a query parameter of no field", d)
		} else if b.Place(fd) != "query" {
			d["param"] = k
			Violation("a client sends a field in the query which belongs elsewhere", d)
		}
	}
}

// segParam is the parameter a segment of a path template is, if it is one, and
// what follows it.
func segParam(seg string) (name, verb string) {
	if !strings.HasPrefix(seg, "{") {
		return "", ""
	}
	i := strings.Index(seg, "}")
	return seg[1:i], seg[i+1:]
}

// match is how a path fits the template of a binding.
func match(b *Binding, path string) (map[string]string, bool) {
	t, p := strings.Split(b.Path, "/"), strings.Split(path, "/")
	if len(t) != len(p) {
		return nil, false
	}
	vars := map[string]string{}
	for i := range t {
		if name, verb := segParam(t[i]); name != "" {
			if len(p[i]) <= len(verb) || !strings.HasSuffix(p[i], verb) {
				return nil, false
			}
			vars[name] = strings.TrimSuffix(p[i], verb)
		} else if t[i] != p[i] {
			return nil, false
		}
	}
	return vars, true
}

// --- C09: which requests reach which rpc ---

func runRouting() {
	verbs := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "PURGE", "MERGE"}
	each(func(s *Service) {
		r := Rand(s.Full)
		log := &Log{}
		h := s.HTTP(s.Endpoints(log.Handler(s)))
		var all []*Binding
		for _, m := range s.Methods {
			all = append(all, m.Bindings...)
		}
		var paths []string
		for _, b := range all {
			for i := 0; i < Conf.N; i++ {
				segs := strings.Split(b.Path, "/")
				fs := b.M.In.Descriptor().Fields()
				for j, seg := range segs {
					if name, verb := segParam(seg); name != "" {
						segs[j] = "1" + verb
						if fs.ByName(protoreflect.Name(name)).Kind() == protoreflect.StringKind && r.Intn(2) == 0 {
							segs[j] = []string{"1", "abc", "x.y", "a-b", "true"}[r.Intn(5)] + verb
						}
					}
				}
				if i == 0 {
					paths = append(paths, strings.Join(segs, "/"))
					continue
				}
				switch r.Intn(9) {
				case 0:
					segs = append(segs, []string{"1", "x", "v1"}[r.Intn(3)])
				case 1:
					segs = segs[:len(segs)-1]
				case 2:
					j := 1 + r.Intn(len(segs)-1)
					if r.Intn(2) == 0 {
						segs[j] = strings.ToUpper(segs[j])
					} else {
						segs[j] = strings.ToLower(segs[j])
					}
				case 3:
					segs = append(segs, "")
				case 4:
					j := 1 + r.Intn(len(segs)-1)
					segs[j] += "1"
				case 5:
					j := 1 + r.Intn(len(segs)-1)
					segs = append(segs[:j:j], segs[j+1:]...)
				case 6:
					j := 1 + r.Intn(len(segs)-1)
					segs = append(append(append([]string{}, segs[:j]...), "1"), segs[j:]...)
				case 7:
					j, k := 1+r.Intn(len(segs)-1), 1+r.Intn(len(segs)-1)
					segs[j], segs[k] = segs[k], segs[j]
				case 8:
					// the tail of another one
					o := strings.Split(all[r.Intn(len(all))].Path, "/")
					j := 1 + r.Intn(len(o)-1)
					segs = append(segs[:len(segs):len(segs)][:min(j, len(segs))], o[min(j, len(o)):]...)
					for k := range segs {
						if name, verb := segParam(segs[k]); name != "" {
							segs[k] = "1" + verb
						}
					}
				}
				paths = append(paths, strings.Join(segs, "/"))
			}
		}
		paths = append(paths, "/", "/v1", "/debug", "/"+s.Name, "/"+s.Full)
		for _, p := range paths {
			if p == "" || p[0] != '/' {
				p = "/" + p
			}
			if strings.Contains(p, "//") {
				continue
			}
			for _, v := range verbs {
				onPath, want := false, map[string]bool{}
				for _, b := range all {
					if _, ok := match(b, p); ok {
						onPath = true
						if b.Verb == v {
							want[b.M.Go] = true
						}
					}
				}
				log.Take()
				res, body, panicked := serve(h, v, p, nil)
				calls := log.Take()
				Eval(s.Name + v + p)
				Count("requests routed", 1)
				d := map[string]interface{}{"service": s.Name, "request": v + " " + p, "status": res.StatusCode, "response": clip(string(body)), "declared": routes(all)}
				for _, c := range calls {
					d["got"] = c.Rpc
				}
				switch {
				case panicked != "":
					d["panic"] = panicked
					Violation("routing a request panics", d)
				case len(want) == 0 && len(calls) > 0:
					Violation("a request no binding declares reaches a handler", d)
				case len(want) == 0:
					code := 404
					if onPath {
						code = 405
					}
					if res.StatusCode != code {
						Violation(fmt.Sprintf("a request no binding declares gets another status than %d", code), d)
					} else {
						Count(fmt.Sprintf("answered %d", code), 1)
					}
				case len(calls) == 1 && !want[calls[0].Rpc]:
					Violation("a request reaches another rpc than the declared one", d)
				case len(calls) == 1 && res.StatusCode == 200:
					Count("reached their rpc", 1)
				case len(calls) == 0 && res.StatusCode >= 500:
					// a value the field cannot hold
					Count("refused for a value", 1)
				default:
					Violation("a declared request does not reach its rpc", d)
				}
			}
		}
	})
}

func routes(bs []*Binding) []string {
	var s []string
	for _, b := range bs {
		s = append(s, b.Verb+" "+b.Path+" -> "+b.M.Go)
	}
	return s
}
