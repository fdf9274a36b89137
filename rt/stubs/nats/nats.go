// Package nats is an offline stand-in for github.com/nats-io/nats.go: an
// in-process broker (or, see remote.go, one in another process) with NATS queue-group semantics. Connections made with the
// same URL share a broker; every message goes to each plain subscriber and to
// exactly one member of each queue group.
package nats

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
)

type Msg struct {
	Subject string
	Reply   string
	Data    []byte
	Sub     *Subscription
}

type MsgHandler func(msg *Msg)

type Option func(*Conn)

type broker struct {
	mu   sync.Mutex
	subs []*Subscription
	rr   uint64
}

var (
	brokersMu sync.Mutex
	brokers   = map[string]*broker{}
	inbox     uint64
)

var ErrConnectionClosed = errors.New("nats: connection closed")

type Conn struct {
	b      *broker
	r      *remote // or nil
	mu     sync.Mutex
	closed bool
	subs   []*Subscription
}

type Subscription struct {
	Subject string
	Queue   string
	cb      MsgHandler
	ch      chan *Msg
	conn    *Conn
	sid     int
}

func Connect(url string, options ...Option) (*Conn, error) {
	if hostPort.MatchString(url) {
		return connectRemote(url)
	}
	brokersMu.Lock()
	defer brokersMu.Unlock()
	b := brokers[url]
	if b == nil {
		b = &broker{}
		brokers[url] = b
	}
	c := &Conn{b: b}
	for _, o := range options {
		o(c)
	}
	return c, nil
}

// Subjects lists the current subscriptions ("subject|queue"); for monitors.
func (nc *Conn) Subjects() []string {
	nc.b.mu.Lock()
	defer nc.b.mu.Unlock()
	var rv []string
	for _, s := range nc.b.subs {
		rv = append(rv, s.Subject+"|"+s.Queue)
	}
	return rv
}

func (nc *Conn) subscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if subj == "" {
		return nil, errors.New("nats: invalid subject")
	}
	nc.mu.Lock()
	if nc.closed {
		nc.mu.Unlock()
		return nil, ErrConnectionClosed
	}
	s := &Subscription{Subject: subj, Queue: queue, cb: cb, ch: make(chan *Msg, 65536), conn: nc}
	nc.subs = append(nc.subs, s)
	nc.mu.Unlock()
	if nc.r != nil {
		if err := nc.r.subscribe(s); err != nil {
			return nil, err
		}
	} else {
		nc.b.mu.Lock()
		nc.b.subs = append(nc.b.subs, s)
		nc.b.mu.Unlock()
	}
	go func() {
		for m := range s.ch {
			m.Sub = s
			s.cb(m)
		}
	}()
	return s, nil
}

func (nc *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return nc.subscribe(subj, "", cb)
}

func (nc *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	return nc.subscribe(subj, queue, cb)
}

func (s *Subscription) Unsubscribe() error {
	if r := s.conn.r; r != nil {
		if !r.unsubscribe(s) {
			return errors.New("nats: invalid subscription")
		}
		return nil
	}
	b := s.conn.b
	b.mu.Lock()
	defer b.mu.Unlock()
	for i, o := range b.subs {
		if o == s {
			b.subs = append(b.subs[:i:i], b.subs[i+1:]...)
			close(s.ch)
			return nil
		}
	}
	return errors.New("nats: invalid subscription")
}

func (nc *Conn) publish(subj, reply string, data []byte) error {
	nc.mu.Lock()
	closed := nc.closed
	nc.mu.Unlock()
	if closed {
		return ErrConnectionClosed
	}
	if nc.r != nil {
		return nc.r.publish(subj, reply, data)
	}
	b := nc.b
	b.mu.Lock()
	defer b.mu.Unlock()
	queues := map[string][]*Subscription{}
	deliver := func(s *Subscription) {
		d := make([]byte, len(data))
		copy(d, data)
		s.ch <- &Msg{Subject: subj, Reply: reply, Data: d}
	}
	for _, s := range b.subs {
		if s.Subject != subj {
			continue
		}
		if s.Queue == "" {
			deliver(s)
			continue
		}
		queues[s.Queue] = append(queues[s.Queue], s)
	}
	for _, members := range queues {
		b.rr++
		deliver(members[b.rr%uint64(len(members))])
	}
	return nil
}

func (nc *Conn) Publish(subj string, data []byte) error { return nc.publish(subj, "", data) }
func (nc *Conn) PublishMsg(m *Msg) error                { return nc.publish(m.Subject, m.Reply, m.Data) }
func (nc *Conn) PublishRequest(subj, reply string, data []byte) error {
	return nc.publish(subj, reply, data)
}

func (nc *Conn) RequestWithContext(ctx context.Context, subj string, data []byte) (*Msg, error) {
	in := fmt.Sprintf("_INBOX.%d.%d", os.Getpid(), atomic.AddUint64(&inbox, 1))
	ch := make(chan *Msg, 1)
	s, err := nc.subscribe(in, "", func(m *Msg) {
		select {
		case ch <- m:
		default:
		}
	})
	if err != nil {
		return nil, err
	}
	defer s.Unsubscribe()
	if err := nc.publish(subj, in, data); err != nil {
		return nil, err
	}
	select {
	case m := <-ch:
		return m, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (nc *Conn) IsClosed() bool {
	nc.mu.Lock()
	defer nc.mu.Unlock()
	return nc.closed
}

func (nc *Conn) Close() {
	nc.mu.Lock()
	if nc.closed {
		nc.mu.Unlock()
		return
	}
	nc.closed = true
	subs := nc.subs
	nc.mu.Unlock()
	for _, s := range subs {
		s.Unsubscribe()
	}
	if nc.r != nil {
		nc.r.c.Close()
	}
}
