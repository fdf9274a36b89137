// Package nats is an offline stand-in for github.com/go-kit/kit/transport/nats
// with the semantics of the published v0.10 package.
package nats

import (
	"context"
	"encoding/json"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/go-kit/kit/endpoint"
)

type (
	DecodeRequestFunc  func(context.Context, *nats.Msg) (request interface{}, err error)
	EncodeRequestFunc  func(context.Context, *nats.Msg, interface{}) error
	EncodeResponseFunc func(context.Context, string, *nats.Conn, interface{}) error
	DecodeResponseFunc func(context.Context, *nats.Msg) (response interface{}, err error)

	RequestFunc             func(context.Context, *nats.Msg) context.Context
	SubscriberResponseFunc  func(context.Context, *nats.Conn) context.Context
	PublisherResponseFunc   func(context.Context, *nats.Msg) context.Context
	ErrorEncoder            func(ctx context.Context, err error, reply string, nc *nats.Conn)
	SubscriberFinalizerFunc func(ctx context.Context, msg *nats.Msg)
)

type Subscriber struct {
	e            endpoint.Endpoint
	dec          DecodeRequestFunc
	enc          EncodeResponseFunc
	before       []RequestFunc
	after        []SubscriberResponseFunc
	errorEncoder ErrorEncoder
	finalizer    []SubscriberFinalizerFunc
}

type SubscriberOption func(*Subscriber)

func NewSubscriber(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...SubscriberOption) *Subscriber {
	s := &Subscriber{e: e, dec: dec, enc: enc, errorEncoder: DefaultErrorEncoder}
	for _, option := range options {
		option(s)
	}
	return s
}

func SubscriberBefore(before ...RequestFunc) SubscriberOption {
	return func(s *Subscriber) { s.before = append(s.before, before...) }
}
func SubscriberAfter(after ...SubscriberResponseFunc) SubscriberOption {
	return func(s *Subscriber) { s.after = append(s.after, after...) }
}
func SubscriberErrorEncoder(ee ErrorEncoder) SubscriberOption {
	return func(s *Subscriber) { s.errorEncoder = ee }
}
func SubscriberFinalizer(f ...SubscriberFinalizerFunc) SubscriberOption {
	return func(s *Subscriber) { s.finalizer = f }
}

func (s Subscriber) ServeMsg(nc *nats.Conn) func(msg *nats.Msg) {
	return func(msg *nats.Msg) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()

		if len(s.finalizer) > 0 {
			defer func() {
				for _, f := range s.finalizer {
					f(ctx, msg)
				}
			}()
		}
		for _, f := range s.before {
			ctx = f(ctx, msg)
		}
		request, err := s.dec(ctx, msg)
		if err != nil {
			if msg.Reply == "" {
				return
			}
			s.errorEncoder(ctx, err, msg.Reply, nc)
			return
		}
		response, err := s.e(ctx, request)
		if err != nil {
			if msg.Reply == "" {
				return
			}
			s.errorEncoder(ctx, err, msg.Reply, nc)
			return
		}
		for _, f := range s.after {
			ctx = f(ctx, nc)
		}
		if msg.Reply == "" {
			return
		}
		if err := s.enc(ctx, msg.Reply, nc, response); err != nil {
			s.errorEncoder(ctx, err, msg.Reply, nc)
			return
		}
	}
}

func NopRequestDecoder(_ context.Context, _ *nats.Msg) (interface{}, error) { return nil, nil }

func EncodeJSONResponse(_ context.Context, reply string, nc *nats.Conn, response interface{}) error {
	b, err := json.Marshal(response)
	if err != nil {
		return err
	}
	return nc.Publish(reply, b)
}

func DefaultErrorEncoder(_ context.Context, err error, reply string, nc *nats.Conn) {
	type Response struct {
		Error string `json:"err"`
	}
	var response Response
	response.Error = err.Error()
	b, err := json.Marshal(response)
	if err != nil {
		return
	}
	_ = nc.Publish(reply, b)
}

type Publisher struct {
	publisher *nats.Conn
	subject   string
	enc       EncodeRequestFunc
	dec       DecodeResponseFunc
	before    []RequestFunc
	after     []PublisherResponseFunc
	timeout   time.Duration
}

type PublisherOption func(*Publisher)

func NewPublisher(publisher *nats.Conn, subject string, enc EncodeRequestFunc, dec DecodeResponseFunc, options ...PublisherOption) *Publisher {
	p := &Publisher{publisher: publisher, subject: subject, enc: enc, dec: dec, timeout: 10 * time.Second}
	for _, option := range options {
		option(p)
	}
	return p
}

func PublisherBefore(before ...RequestFunc) PublisherOption {
	return func(p *Publisher) { p.before = append(p.before, before...) }
}
func PublisherAfter(after ...PublisherResponseFunc) PublisherOption {
	return func(p *Publisher) { p.after = append(p.after, after...) }
}
func PublisherTimeout(timeout time.Duration) PublisherOption {
	return func(p *Publisher) { p.timeout = timeout }
}

func (p Publisher) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		ctx, cancel := context.WithTimeout(ctx, p.timeout)
		defer cancel()

		msg := nats.Msg{Subject: p.subject}
		if err := p.enc(ctx, &msg, request); err != nil {
			return nil, err
		}
		for _, f := range p.before {
			ctx = f(ctx, &msg)
		}
		resp, err := p.publisher.RequestWithContext(ctx, msg.Subject, msg.Data)
		if err != nil {
			return nil, err
		}
		for _, f := range p.after {
			ctx = f(ctx, resp)
		}
		response, err := p.dec(ctx, resp)
		if err != nil {
			return nil, err
		}
		return response, nil
	}
}

func EncodeJSONRequest(_ context.Context, msg *nats.Msg, request interface{}) error {
	b, err := json.Marshal(request)
	if err != nil {
		return err
	}
	msg.Data = b
	return nil
}
