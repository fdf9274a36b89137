// Package mux is an offline stand-in for github.com/gorilla/mux with the
// semantics the generated code relies on: first matching route wins, path
// templates with {name} and {name:pattern}, a 405 when only the method
// mismatches, path cleaning with a 301, matching on the decoded path.
package mux

import (
	"context"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"strings"
)

type ctxKey int

const varsKey ctxKey = 0

func Vars(r *http.Request) map[string]string {
	if rv := r.Context().Value(varsKey); rv != nil {
		return rv.(map[string]string)
	}
	return nil
}

type Router struct {
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	routes                  []*Route
}

func NewRouter() *Router { return &Router{} }

type Route struct {
	methods []string
	re      *regexp.Regexp
	names   []string
	tmpl    string
	handler http.Handler
	err     error
}

func (r *Router) NewRoute() *Route {
	rt := &Route{}
	r.routes = append(r.routes, rt)
	return rt
}
func (r *Router) Methods(methods ...string) *Route { return r.NewRoute().Methods(methods...) }
func (r *Router) Path(tpl string) *Route           { return r.NewRoute().Path(tpl) }
func (r *Router) Handle(path string, handler http.Handler) *Route {
	return r.NewRoute().Path(path).Handler(handler)
}

func (r *Route) Methods(methods ...string) *Route {
	for _, m := range methods {
		r.methods = append(r.methods, strings.ToUpper(m))
	}
	return r
}

func (r *Route) Handler(h http.Handler) *Route {
	if r.err == nil {
		r.handler = h
	}
	return r
}

func (r *Route) GetError() error                  { return r.err }
func (r *Route) GetPathTemplate() (string, error) { return r.tmpl, r.err }
func (r *Route) GetMethods() ([]string, error)    { return r.methods, r.err }

func braceIndices(s string) ([]int, error) {
	var level, idx int
	var idxs []int
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			if level++; level == 1 {
				idx = i
			}
		case '}':
			if level--; level == 0 {
				idxs = append(idxs, idx, i+1)
			} else if level < 0 {
				return nil, fmt.Errorf("mux: unbalanced braces in %q", s)
			}
		}
	}
	if level != 0 {
		return nil, fmt.Errorf("mux: unbalanced braces in %q", s)
	}
	return idxs, nil
}

func (r *Route) Path(tpl string) *Route {
	if r.err != nil {
		return r
	}
	if len(tpl) > 0 && tpl[0] != '/' {
		r.err = fmt.Errorf("mux: path must start with a slash, got %q", tpl)
		return r
	}
	idxs, err := braceIndices(tpl)
	if err != nil {
		r.err = err
		return r
	}
	var pattern strings.Builder
	pattern.WriteByte('^')
	end := 0
	for i := 0; i < len(idxs); i += 2 {
		raw := tpl[end:idxs[i]]
		end = idxs[i+1]
		parts := strings.SplitN(tpl[idxs[i]+1:end-1], ":", 2)
		name := parts[0]
		patt := "[^/]+"
		if len(parts) == 2 {
			patt = parts[1]
		}
		if name == "" || patt == "" {
			r.err = fmt.Errorf("mux: missing name or pattern in %q", tpl[idxs[i]:end])
			return r
		}
		for _, n := range r.names {
			if n == name {
				r.err = fmt.Errorf("mux: duplicated route variable %q", name)
				return r
			}
		}
		fmt.Fprintf(&pattern, "%s(?P<v%d>%s)", regexp.QuoteMeta(raw), i/2, patt)
		r.names = append(r.names, name)
	}
	pattern.WriteString(regexp.QuoteMeta(tpl[end:]))
	pattern.WriteByte('$')
	r.re, r.err = regexp.Compile(pattern.String())
	r.tmpl = tpl
	return r
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	p := req.URL.Path
	if clean := cleanPath(p); clean != p {
		url := *req.URL
		url.Path = clean
		w.Header().Set("Location", url.String())
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	mismatch := false
	for _, rt := range r.routes {
		if rt.err != nil || rt.re == nil {
			continue
		}
		m := rt.re.FindStringSubmatch(p)
		if m == nil {
			continue
		}
		if len(rt.methods) > 0 {
			ok := false
			for _, meth := range rt.methods {
				if meth == req.Method {
					ok = true
				}
			}
			if !ok {
				mismatch = true
				continue
			}
		}
		if rt.handler == nil {
			continue
		}
		vars := map[string]string{}
		for i, n := range rt.names {
			vars[n] = m[rt.re.SubexpIndex(fmt.Sprintf("v%d", i))]
		}
		rt.handler.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), varsKey, vars)))
		return
	}
	if mismatch {
		if r.MethodNotAllowedHandler != nil {
			r.MethodNotAllowedHandler.ServeHTTP(w, req)
			return
		}
		w.WriteHeader(http.StatusMethodNotAllowed)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, req)
		return
	}
	http.NotFound(w, req)
}
