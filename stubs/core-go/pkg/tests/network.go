// Package tests is a stand-in for gitlab.com/alephledger/core-go/pkg/tests: an in-memory network.
package tests

import (
	"errors"
	"io"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type stream struct {
	mx     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
}

func newStream() *stream { s := &stream{}; s.cond = sync.NewCond(&s.mx); return s }

type conn struct {
	in, out *stream
	pending []byte
}

func (c *conn) Read(b []byte) (int, error) {
	c.in.mx.Lock()
	defer c.in.mx.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(c.in.buf) == 0 {
		if c.in.closed {
			return 0, io.EOF
		}
		c.in.cond.Wait()
	}
	n := copy(b, c.in.buf)
	c.in.buf = c.in.buf[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error) { c.pending = append(c.pending, b...); return len(b), nil }
func (c *conn) Flush() error {
	c.out.mx.Lock()
	defer c.out.mx.Unlock()
	if c.out.closed {
		return io.ErrClosedPipe
	}
	c.out.buf = append(c.out.buf, c.pending...)
	c.pending = nil
	c.out.cond.Broadcast()
	return nil
}
func (c *conn) Close() error {
	for _, s := range []*stream{c.in, c.out} {
		s.mx.Lock()
		s.closed = true
		s.cond.Broadcast()
		s.mx.Unlock()
	}
	return nil
}
func (c *conn) TimeoutAfter(time.Duration) {}

type server struct {
	all  []*server
	ch   chan network.Connection
	stop chan struct{}
	once sync.Once
	tmo  time.Duration
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	a, b := newStream(), newStream()
	t := time.NewTimer(s.tmo)
	defer t.Stop()
	select {
	case s.all[pid].ch <- &conn{in: b, out: a}:
		return &conn{in: a, out: b}, nil
	case <-t.C:
		return nil, errors.New("dial timeout")
	}
}
func (s *server) Listen() (network.Connection, error) {
	t := time.NewTimer(s.tmo)
	defer t.Stop()
	select {
	case c := <-s.ch:
		return c, nil
	case <-s.stop:
		return nil, errors.New("stopped")
	case <-t.C:
		return nil, errors.New("listen timeout")
	}
}
func (s *server) Stop() { s.once.Do(func() { close(s.stop) }) }

// NewNetwork returns n connected servers.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	ss := make([]*server, n)
	for i := range ss {
		ss[i] = &server{ch: make(chan network.Connection), stop: make(chan struct{}), tmo: timeout}
	}
	out := make([]network.Server, n)
	for i := range ss {
		ss[i].all = ss
		out[i] = ss[i]
	}
	return out
}

// CloseNetwork stops all servers.
func CloseNetwork(ns []network.Server) {
	for _, n := range ns {
		n.Stop()
	}
}
