// Command worker runs baron's own packages on behalf of the harness, one JSON
// request per line on stdin and one reply per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"strings"
	"sync"
	"testing/iotest"

	"github.com/sirupsen/logrus"
	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/svcdef/svcparse"
)

type request struct {
	Op      string
	Src     string
	Srcs    []string
	Reader  string // how Src is delivered: "", "onebyte", "half", "errN"
	ErrAt   int
	Threads int
	Rounds  int
	Go      map[string]string
	Proto   map[string]string
	URLs    [][2]string
	Names   []string
	Tmp     string
}

type parsed struct {
	Err string            `json:",omitempty"`
	Svc *svcparse.Service `json:",omitempty"`
}

var errReader = errors.New("injected read error")

type failingReader struct {
	r io.Reader
}

func (f failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errReader
	}
	return n, err
}

func reader(q request) io.Reader {
	r := io.Reader(strings.NewReader(q.Src))
	switch q.Reader {
	case "onebyte":
		r = iotest.OneByteReader(r)
	case "half":
		r = iotest.HalfReader(r)
	case "dataerr":
		r = iotest.DataErrReader(r)
	case "err":
		r = failingReader{strings.NewReader(q.Src[:q.ErrAt])}
	}
	return r
}

func parse(r io.Reader) parsed {
	svc, err := svcparse.ParseService(svcparse.NewSvcLexer(r))
	p := parsed{Svc: svc}
	if err != nil {
		p.Err = err.Error()
		if p.Err == "" {
			p.Err = "error"
		}
		p.Svc = nil
	}
	return p
}

// typ is the part of a svcdef.FieldType the harness judges.
type typ struct {
	Name    string
	Message bool
	MsgName string
	Enum    bool
	Star    bool
	Array   bool
	Key     *typ
	Val     *typ
	Oneof   []field
}

type field struct {
	Name, PB string
	Type     *typ
}

func dumpType(t *svcdef.FieldType) *typ {
	if t == nil {
		return nil
	}
	rv := &typ{Name: t.Name, Message: t.Message != nil, Enum: t.Enum != nil, Star: t.StarExpr, Array: t.ArrayType}
	if t.Message != nil {
		rv.MsgName = t.Message.Name
	}
	if t.Map != nil {
		rv.Key, rv.Val = dumpType(t.Map.KeyType), dumpType(t.Map.ValueType)
	}
	for _, f := range t.Oneof {
		rv.Oneof = append(rv.Oneof, dumpField(f))
	}
	return rv
}

func dumpField(f *svcdef.Field) field {
	return field{f.Name, f.PBFieldName, dumpType(f.Type)}
}

type message struct {
	Name   string
	Fields []field
}

type param struct {
	Field    string
	Location string
}

type binding struct {
	Verb, Path string
	Params     []param
}

type method struct {
	Name, In, Out string
	InMsg, OutMsg bool
	Bindings      []binding
}

type dump struct {
	Pkg      string
	Messages []message
	Enums    []string
	Service  string
	Methods  []method
}

func dumpDef(sd *svcdef.Svcdef) dump {
	d := dump{Pkg: sd.PkgName}
	for _, m := range sd.Messages {
		dm := message{Name: m.Name}
		for _, f := range m.Fields {
			dm.Fields = append(dm.Fields, dumpField(f))
		}
		d.Messages = append(d.Messages, dm)
	}
	for _, e := range sd.Enums {
		d.Enums = append(d.Enums, e.Name)
	}
	if sd.Service != nil {
		d.Service = sd.Service.Name
		for _, m := range sd.Service.Methods {
			dm := method{Name: m.Name, In: m.RequestType.Name, Out: m.ResponseType.Name,
				InMsg: m.RequestType.Message != nil, OutMsg: m.ResponseType.Message != nil}
			for _, b := range m.Bindings {
				db := binding{Verb: b.Verb, Path: b.Path}
				for _, p := range b.Params {
					db.Params = append(db.Params, param{p.Field.Name, p.Location})
				}
				dm.Bindings = append(dm.Bindings, db)
			}
			d.Methods = append(d.Methods, dm)
		}
	}
	return d
}

func readers(m map[string]string) map[string]io.Reader {
	rv := map[string]io.Reader{}
	for k, v := range m {
		rv[k] = strings.NewReader(v)
	}
	return rv
}

func define(q request) map[string]interface{} {
	sd, err := svcdef.New(readers(q.Go), readers(q.Proto))
	if err != nil {
		return map[string]interface{}{"Err": err.Error()}
	}
	return map[string]interface{}{"Def": dumpDef(sd)}
}

func handle(q request) interface{} {
	switch q.Op {
	case "parse":
		return parse(reader(q))
	case "seq":
		// each in turn in this process
		var rv []parsed
		for _, s := range q.Srcs {
			rv = append(rv, parse(strings.NewReader(s)))
		}
		return rv
	case "conc":
		// from several goroutines at once, each starting elsewhere
		out := make([][]string, q.Threads)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < q.Threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				<-start
				res := make([]string, len(q.Srcs))
				for r := 0; r < q.Rounds; r++ {
					for i := range q.Srcs {
						k := (i + t*7 + r*3) % len(q.Srcs)
						buf, _ := json.Marshal(parse(strings.NewReader(q.Srcs[k])))
						if res[k] != "" && res[k] != string(buf) {
							res[k] = "unstable: " + res[k] + " / " + string(buf)
						} else {
							res[k] = string(buf)
						}
					}
				}
				out[t] = res
			}(t)
		}
		close(start)
		wg.Wait()
		return out
	case "define":
		return define(q)
	case "fromstring":
		os.Setenv("TMPDIR", q.Tmp)
		sd, err := svcdef.NewFromString(q.Src, q.Srcs)
		if err != nil {
			return map[string]interface{}{"Err": err.Error()}
		}
		return map[string]interface{}{"Def": dumpDef(sd)}
	case "concdef":
		out := make([]string, q.Threads)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < q.Threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				<-start
				buf, _ := json.Marshal(define(q))
				out[t] = string(buf)
			}(t)
		}
		close(start)
		wg.Wait()
		return out
	case "pathparams":
		type res struct {
			Params map[string]string
			Map    map[string]int
			Err    string
		}
		var rv []res
		for _, u := range q.URLs {
			p, err := httptransport.PathParams(u[0], u[1])
			r := res{Params: p, Map: httptransport.BuildParamMap(u[1])}
			if err != nil {
				r.Err = err.Error()
			}
			rv = append(rv, r)
		}
		return rv
	case "camel":
		var rv []string
		for _, n := range q.Names {
			rv = append(rv, pkg.GoCamelCase(n))
		}
		return rv
	}
	return fmt.Sprintf("unknown op %q", q.Op)
}

func main() {
	logrus.SetOutput(ioutil.Discard)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	for {
		var q request
		if err := dec.Decode(&q); err != nil {
			return
		}
		buf, err := json.Marshal(handle(q))
		if err != nil {
			buf, _ = json.Marshal(err.Error())
		}
		out.Write(buf)
		out.WriteByte('\n')
		out.Flush()
	}
}
