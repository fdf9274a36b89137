// Package grpc is an offline stand-in for github.com/go-kit/kit/transport/grpc
// with the semantics of the published v0.10 package.
package grpc

import (
	"context"
	"fmt"
	"reflect"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"

	"github.com/go-kit/kit/endpoint"
)

type (
	DecodeRequestFunc  func(context.Context, interface{}) (request interface{}, err error)
	EncodeRequestFunc  func(context.Context, interface{}) (request interface{}, err error)
	EncodeResponseFunc func(context.Context, interface{}) (response interface{}, err error)
	DecodeResponseFunc func(context.Context, interface{}) (response interface{}, err error)

	ClientRequestFunc  func(context.Context, *metadata.MD) context.Context
	ServerRequestFunc  func(context.Context, metadata.MD) context.Context
	ServerResponseFunc func(ctx context.Context, header *metadata.MD, trailer *metadata.MD) context.Context
	ClientResponseFunc func(ctx context.Context, header metadata.MD, trailer metadata.MD) context.Context
)

type contextKey int

const (
	ContextKeyRequestMethod contextKey = iota
)

type Handler interface {
	ServeGRPC(ctx context.Context, request interface{}) (context.Context, interface{}, error)
}

type Server struct {
	e      endpoint.Endpoint
	dec    DecodeRequestFunc
	enc    EncodeResponseFunc
	before []ServerRequestFunc
	after  []ServerResponseFunc
}

type ServerOption func(*Server)

func NewServer(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...ServerOption) *Server {
	s := &Server{e: e, dec: dec, enc: enc}
	for _, option := range options {
		option(s)
	}
	return s
}

func ServerBefore(before ...ServerRequestFunc) ServerOption {
	return func(s *Server) { s.before = append(s.before, before...) }
}
func ServerAfter(after ...ServerResponseFunc) ServerOption {
	return func(s *Server) { s.after = append(s.after, after...) }
}

func (s Server) ServeGRPC(ctx context.Context, req interface{}) (retctx context.Context, resp interface{}, err error) {
	md, ok := metadata.FromIncomingContext(ctx)
	if !ok {
		md = metadata.MD{}
	}
	for _, f := range s.before {
		ctx = f(ctx, md)
	}
	request, err := s.dec(ctx, req)
	if err != nil {
		return ctx, nil, err
	}
	response, err := s.e(ctx, request)
	if err != nil {
		return ctx, nil, err
	}
	var mdHeader, mdTrailer metadata.MD
	for _, f := range s.after {
		ctx = f(ctx, &mdHeader, &mdTrailer)
	}
	grpcResp, err := s.enc(ctx, response)
	if err != nil {
		return ctx, nil, err
	}
	if len(mdHeader) > 0 {
		if err = grpc.SendHeader(ctx, mdHeader); err != nil {
			return ctx, nil, err
		}
	}
	if len(mdTrailer) > 0 {
		if err = grpc.SetTrailer(ctx, mdTrailer); err != nil {
			return ctx, nil, err
		}
	}
	return ctx, grpcResp, nil
}

type Client struct {
	client    *grpc.ClientConn
	method    string
	enc       EncodeRequestFunc
	dec       DecodeResponseFunc
	grpcReply reflect.Type
	before    []ClientRequestFunc
	after     []ClientResponseFunc
}

type ClientOption func(*Client)

func NewClient(cc *grpc.ClientConn, serviceName string, method string, enc EncodeRequestFunc, dec DecodeResponseFunc, grpcReply interface{}, options ...ClientOption) *Client {
	c := &Client{
		client: cc,
		method: fmt.Sprintf("/%s/%s", serviceName, method),
		enc:    enc,
		dec:    dec,
		// We are using reflect.Indirect here to allow both reply structs and
		// pointers to these reply structs.
		grpcReply: reflect.TypeOf(reflect.Indirect(reflect.ValueOf(grpcReply)).Interface()),
	}
	for _, option := range options {
		option(c)
	}
	return c
}

func ClientBefore(before ...ClientRequestFunc) ClientOption {
	return func(c *Client) { c.before = append(c.before, before...) }
}
func ClientAfter(after ...ClientResponseFunc) ClientOption {
	return func(c *Client) { c.after = append(c.after, after...) }
}

func (c Client) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (response interface{}, err error) {
		ctx, cancel := context.WithCancel(ctx)
		defer cancel()

		ctx = context.WithValue(ctx, ContextKeyRequestMethod, c.method)

		req, err := c.enc(ctx, request)
		if err != nil {
			return nil, err
		}

		md := &metadata.MD{}
		for _, f := range c.before {
			ctx = f(ctx, md)
		}
		ctx = metadata.NewOutgoingContext(ctx, *md)

		var header, trailer metadata.MD
		grpcReply := reflect.New(c.grpcReply).Interface()
		if err = c.client.Invoke(
			ctx, c.method, req, grpcReply, grpc.Header(&header),
			grpc.Trailer(&trailer),
		); err != nil {
			return nil, err
		}

		for _, f := range c.after {
			ctx = f(ctx, header, trailer)
		}

		response, err = c.dec(ctx, grpcReply)
		if err != nil {
			return nil, err
		}
		return response, nil
	}
}
