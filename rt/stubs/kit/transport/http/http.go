// Package http is an offline stand-in for github.com/go-kit/kit/transport/http
// with the semantics of the published v0.10 package.
package http

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"net/url"

	"github.com/go-kit/kit/endpoint"
)

type (
	DecodeRequestFunc  func(context.Context, *http.Request) (request interface{}, err error)
	EncodeRequestFunc  func(context.Context, *http.Request, interface{}) error
	CreateRequestFunc  func(context.Context, interface{}) (*http.Request, error)
	EncodeResponseFunc func(context.Context, http.ResponseWriter, interface{}) error
	DecodeResponseFunc func(context.Context, *http.Response) (response interface{}, err error)

	RequestFunc         func(context.Context, *http.Request) context.Context
	ServerResponseFunc  func(context.Context, http.ResponseWriter) context.Context
	ClientResponseFunc  func(context.Context, *http.Response) context.Context
	ErrorEncoder        func(ctx context.Context, err error, w http.ResponseWriter)
	ServerFinalizerFunc func(ctx context.Context, code int, r *http.Request)
	ClientFinalizerFunc func(ctx context.Context, err error)
)

type StatusCoder interface{ StatusCode() int }
type Headerer interface{ Headers() http.Header }

func SetContentType(contentType string) ServerResponseFunc {
	return SetResponseHeader("Content-Type", contentType)
}

func SetResponseHeader(key, val string) ServerResponseFunc {
	return func(ctx context.Context, w http.ResponseWriter) context.Context {
		w.Header().Set(key, val)
		return ctx
	}
}

type Server struct {
	e            endpoint.Endpoint
	dec          DecodeRequestFunc
	enc          EncodeResponseFunc
	before       []RequestFunc
	after        []ServerResponseFunc
	errorEncoder ErrorEncoder
	finalizer    []ServerFinalizerFunc
}

func NewServer(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...ServerOption) *Server {
	s := &Server{e: e, dec: dec, enc: enc, errorEncoder: DefaultErrorEncoder}
	for _, option := range options {
		option(s)
	}
	return s
}

type ServerOption func(*Server)

func ServerBefore(before ...RequestFunc) ServerOption {
	return func(s *Server) { s.before = append(s.before, before...) }
}
func ServerAfter(after ...ServerResponseFunc) ServerOption {
	return func(s *Server) { s.after = append(s.after, after...) }
}
func ServerErrorEncoder(ee ErrorEncoder) ServerOption {
	return func(s *Server) { s.errorEncoder = ee }
}
func ServerFinalizer(f ...ServerFinalizerFunc) ServerOption {
	return func(s *Server) { s.finalizer = append(s.finalizer, f...) }
}

func (s Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	ctx := r.Context()
	if len(s.finalizer) > 0 {
		defer func() {
			for _, f := range s.finalizer {
				f(ctx, 0, r)
			}
		}()
	}
	for _, f := range s.before {
		ctx = f(ctx, r)
	}
	request, err := s.dec(ctx, r)
	if err != nil {
		s.errorEncoder(ctx, err, w)
		return
	}
	response, err := s.e(ctx, request)
	if err != nil {
		s.errorEncoder(ctx, err, w)
		return
	}
	for _, f := range s.after {
		ctx = f(ctx, w)
	}
	if err := s.enc(ctx, w, response); err != nil {
		s.errorEncoder(ctx, err, w)
		return
	}
}

func NopRequestDecoder(ctx context.Context, r *http.Request) (interface{}, error) { return nil, nil }

func EncodeJSONResponse(_ context.Context, w http.ResponseWriter, response interface{}) error {
	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	if headerer, ok := response.(Headerer); ok {
		for k, values := range headerer.Headers() {
			for _, v := range values {
				w.Header().Add(k, v)
			}
		}
	}
	code := http.StatusOK
	if sc, ok := response.(StatusCoder); ok {
		code = sc.StatusCode()
	}
	w.WriteHeader(code)
	if code == http.StatusNoContent {
		return nil
	}
	return json.NewEncoder(w).Encode(response)
}

func DefaultErrorEncoder(_ context.Context, err error, w http.ResponseWriter) {
	contentType, body := "text/plain; charset=utf-8", []byte(err.Error())
	if marshaler, ok := err.(json.Marshaler); ok {
		if jsonBody, marshalErr := marshaler.MarshalJSON(); marshalErr == nil {
			contentType, body = "application/json; charset=utf-8", jsonBody
		}
	}
	w.Header().Set("Content-Type", contentType)
	if headerer, ok := err.(Headerer); ok {
		for k, values := range headerer.Headers() {
			for _, v := range values {
				w.Header().Add(k, v)
			}
		}
	}
	code := http.StatusInternalServerError
	if sc, ok := err.(StatusCoder); ok {
		code = sc.StatusCode()
	}
	w.WriteHeader(code)
	w.Write(body)
}

// HTTPClient is what the client uses to send requests.
type HTTPClient interface {
	Do(req *http.Request) (*http.Response, error)
}

type Client struct {
	client         HTTPClient
	req            CreateRequestFunc
	dec            DecodeResponseFunc
	before         []RequestFunc
	after          []ClientResponseFunc
	finalizer      []ClientFinalizerFunc
	bufferedStream bool
}

func NewClient(method string, tgt *url.URL, enc EncodeRequestFunc, dec DecodeResponseFunc, options ...ClientOption) *Client {
	c := &Client{
		client: http.DefaultClient,
		req: func(ctx context.Context, request interface{}) (*http.Request, error) {
			req, err := http.NewRequest(method, tgt.String(), nil)
			if err != nil {
				return nil, err
			}
			if err = enc(ctx, req, request); err != nil {
				return nil, err
			}
			return req, nil
		},
		dec: dec,
	}
	for _, option := range options {
		option(c)
	}
	return c
}

type ClientOption func(*Client)

func SetClient(client HTTPClient) ClientOption { return func(c *Client) { c.client = client } }
func ClientBefore(before ...RequestFunc) ClientOption {
	return func(c *Client) { c.before = append(c.before, before...) }
}
func ClientAfter(after ...ClientResponseFunc) ClientOption {
	return func(c *Client) { c.after = append(c.after, after...) }
}
func ClientFinalizer(f ...ClientFinalizerFunc) ClientOption {
	return func(s *Client) { s.finalizer = append(s.finalizer, f...) }
}
func BufferedStream(buffered bool) ClientOption {
	return func(c *Client) { c.bufferedStream = buffered }
}

func (c Client) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		ctx, cancel := context.WithCancel(ctx)
		var (
			resp *http.Response
			err  error
		)
		if c.finalizer != nil {
			defer func() {
				for _, f := range c.finalizer {
					f(ctx, err)
				}
			}()
		}
		req, err := c.req(ctx, request)
		if err != nil {
			cancel()
			return nil, err
		}
		for _, f := range c.before {
			ctx = f(ctx, req)
		}
		resp, err = c.client.Do(req.WithContext(ctx))
		if err != nil {
			cancel()
			return nil, err
		}
		if c.bufferedStream {
			resp.Body = bodyWithCancel{ReadCloser: resp.Body, cancel: cancel}
		} else {
			defer resp.Body.Close()
			defer cancel()
		}
		for _, f := range c.after {
			ctx = f(ctx, resp)
		}
		return c.dec(ctx, resp)
	}
}

type bodyWithCancel struct {
	io.ReadCloser
	cancel context.CancelFunc
}

func (bwc bodyWithCancel) Close() error {
	bwc.ReadCloser.Close()
	bwc.cancel()
	return nil
}
