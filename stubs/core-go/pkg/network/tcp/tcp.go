// Package tcp is a stand-in for gitlab.com/alephledger/core-go/pkg/network/tcp.
package tcp

import (
	"bufio"
	"net"
	"time"

	"github.com/rs/zerolog"
	"gitlab.com/alephledger/core-go/pkg/network"
)

type conn struct {
	c net.Conn
	r *bufio.Reader
	w *bufio.Writer
}

func (c *conn) Read(b []byte) (int, error)  { return c.r.Read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *conn) Flush() error                { return c.w.Flush() }
func (c *conn) Close() error                { return c.c.Close() }
func (c *conn) TimeoutAfter(t time.Duration) {
	go func() { time.Sleep(t); c.c.Close() }()
}

type server struct {
	l     *net.TCPListener
	addrs []string
}

// NewServer listens on the local address and dials the remote ones.
func NewServer(local string, remote []string, _ zerolog.Logger) (network.Server, error) {
	a, err := net.ResolveTCPAddr("tcp", local)
	if err != nil {
		return nil, err
	}
	l, err := net.ListenTCP("tcp", a)
	if err != nil {
		return nil, err
	}
	return &server{l, remote}, nil
}

func wrap(c net.Conn) network.Connection {
	return &conn{c, bufio.NewReader(c), bufio.NewWriter(c)}
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	c, err := net.DialTimeout("tcp", s.addrs[pid], time.Second)
	if err != nil {
		time.Sleep(5 * time.Millisecond)
		return nil, err
	}
	return wrap(c), nil
}
func (s *server) Listen() (network.Connection, error) {
	c, err := s.l.Accept()
	if err != nil {
		return nil, err
	}
	return wrap(c), nil
}
func (s *server) Stop() { s.l.Close() }
