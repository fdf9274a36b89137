package nats

import (
	"bufio"
	"encoding/json"
	"errors"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// A URL which ends in a port is that of a broker in another process, which
// speaks lines of JSON. The semantics are those of the broker in this package.

var hostPort = regexp.MustCompile(`:[0-9]+$`)

// Frame is one line of the protocol.
type Frame struct {
	Op      string // sub, unsub, pub, or msg from the broker
	Sid     int    `json:",omitempty"`
	Subject string `json:",omitempty"`
	Queue   string `json:",omitempty"`
	Reply   string `json:",omitempty"`
	Data    []byte `json:",omitempty"`
}

type remote struct {
	mu   sync.Mutex
	c    net.Conn
	enc  *json.Encoder
	next int
	subs map[int]*Subscription
}

func connectRemote(url string) (*Conn, error) {
	addr := strings.TrimPrefix(url, "nats://")
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	r := &remote{c: c, enc: json.NewEncoder(c), subs: map[int]*Subscription{}}
	nc := &Conn{r: r}
	go r.read(nc)
	return nc, nil
}

func (r *remote) read(nc *Conn) {
	dec := json.NewDecoder(bufio.NewReader(r.c))
	for {
		var f Frame
		if dec.Decode(&f) != nil {
			nc.Close()
			return
		}
		r.mu.Lock()
		if s := r.subs[f.Sid]; s != nil {
			s.ch <- &Msg{Subject: f.Subject, Reply: f.Reply, Data: f.Data}
		}
		r.mu.Unlock()
	}
}

func (r *remote) subscribe(s *Subscription) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.next++
	if strconv.Itoa(r.next) == os.Getenv("VERIF_NATS_REFUSE") {
		return errors.New("nats: subscription refused")
	}
	s.sid = r.next
	r.subs[s.sid] = s
	return r.enc.Encode(Frame{Op: "sub", Sid: s.sid, Subject: s.Subject, Queue: s.Queue})
}

func (r *remote) unsubscribe(s *Subscription) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.subs[s.sid] != s {
		return false
	}
	delete(r.subs, s.sid)
	close(s.ch)
	r.enc.Encode(Frame{Op: "unsub", Sid: s.sid})
	return true
}

func (r *remote) publish(subj, reply string, data []byte) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.enc.Encode(Frame{Op: "pub", Subject: subj, Reply: reply, Data: data})
}
