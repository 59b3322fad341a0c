package roundmon

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"aaa.vmon/mon"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/core-go/pkg/network"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// C30 monitors how parties connect, start and stop.
var C30 = &mon.Monitor{
	Level:   "fault_enumeration",
	Rule:    "one evaluation is one party in one session of 1 to 40 round servers that are started in a random order and at random distances, over links on which dialling, listening, and sending the identification (before, in the middle, at the flush) fail a planned number of times first, with connections of strangers in between: each party ends up with exactly one usable connection to and from every other one, no byte of a round leaves before the start time, the first rounds deliver the right data; parties that come after the start time get an error and send nothing; after Stop every connection the party ever had is closed, even where Close reports errors, its peers report exactly it as missing, and in the end no goroutine of any server is left; distinct by session and party",
	MinEval: 300,
	Run:     runC30,
}

func init() { All["C30"] = C30 }

// half is one direction of a connection.
type half struct {
	mx     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
}

func newHalf() *half { h := &half{}; h.cond = sync.NewCond(&h.mx); return h }

func (h *half) close() { h.mx.Lock(); h.closed = true; h.cond.Broadcast(); h.mx.Unlock() }

// setupConn is one end of a connection.
type setupConn struct {
	nw          *setupNet
	owner, peer int // peer is -1 at the listening end
	fail        int // planned failure of the dialling end
	in, out     *half

	mx      sync.Mutex
	pending []byte
	written int
	closed  bool // by its owner
	broken  bool
	early   bool
}

func (c *setupConn) Read(b []byte) (int, error) {
	c.in.mx.Lock()
	defer c.in.mx.Unlock()
	for len(c.in.buf) == 0 {
		c.mx.Lock()
		over := c.closed || c.broken
		c.mx.Unlock()
		if over {
			return 0, io.ErrClosedPipe
		}
		if c.in.closed {
			return 0, io.EOF
		}
		c.in.cond.Wait()
	}
	n := copy(b, c.in.buf)
	if n > 1 && c.nw.oneByOne {
		n = 1
	}
	c.in.buf = c.in.buf[n:]
	mon.Tick()
	return n, nil
}

// die breaks the connection.
func (c *setupConn) die() error {
	c.broken = true
	c.out.close()
	c.in.close()
	return io.ErrClosedPipe
}

func (c *setupConn) Write(b []byte) (int, error) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.fail == failOnce && c.broken && !c.closed {
		return len(b), nil
	}
	if c.closed || c.broken {
		return 0, io.ErrClosedPipe
	}
	if c.fail == failWrite || c.fail == failOnce {
		return 0, c.die()
	}
	c.pending = append(c.pending, b...)
	return len(b), nil
}

func (c *setupConn) Flush() error {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.fail == failOnce && c.broken && !c.closed {
		return nil
	}
	if c.closed || c.broken {
		return io.ErrClosedPipe
	}
	b := c.pending
	c.pending = nil
	switch c.fail {
	case failFlush:
		return c.die()
	case failPartial:
		c.out.mx.Lock()
		c.out.buf = append(c.out.buf, b[:len(b)/2]...)
		c.out.cond.Broadcast()
		c.out.mx.Unlock()
		return c.die()
	}
	if c.peer >= 0 && c.written+len(b) > 2 && time.Now().Before(c.nw.start) {
		c.early = true
	}
	c.written += len(b)
	c.out.mx.Lock()
	defer c.out.mx.Unlock()
	if c.out.closed {
		return io.ErrClosedPipe
	}
	c.out.buf = append(c.out.buf, b...)
	c.out.cond.Broadcast()
	mon.Tick()
	return nil
}

func (c *setupConn) Close() error {
	c.mx.Lock()
	c.closed = true
	c.mx.Unlock()
	c.in.close()
	c.out.close()
	// the connection is closed, whatever this says
	if c.nw.closeErr > 0 && (c.owner*7+c.peer*3+c.nw.closeErr)%3 != 0 {
		return fmt.Errorf("injected failure to close")
	}
	return nil
}
func (c *setupConn) TimeoutAfter(time.Duration) {}

const (
	failDial = 1 + iota
	failWrite
	failFlush
	failPartial
	failOnce // writing fails once, and then seems to work
	failKinds
)

// setupNet is a network whose set-up fails as planned.
type setupNet struct {
	n        int
	start    time.Time
	oneByOne bool
	closeErr int // if not 0, most Close calls report an error
	mx       sync.Mutex
	dials    map[[2]int][]int // failures to come
	listens  []int
	slow     map[[2]int]time.Duration
	conns    []*setupConn
	queue    []chan *setupConn
	down     chan bool
	stops    int
}

type setupServer struct {
	nw  *setupNet
	pid int
}

func (s *setupServer) Dial(to uint16) (network.Connection, error) {
	nw := s.nw
	select {
	case <-nw.down:
		time.Sleep(10 * time.Millisecond)
		return nil, errors.New("the network is down")
	default:
	}
	nw.mx.Lock()
	k := [2]int{s.pid, int(to)}
	fail := 0
	if f := nw.dials[k]; len(f) > 0 {
		fail, nw.dials[k] = f[0], f[1:]
	}
	d := nw.slow[k]
	nw.mx.Unlock()
	time.Sleep(d)
	mon.Tick()
	if fail == failDial || int(to) >= nw.n || int(to) == s.pid {
		return nil, errors.New("no connection")
	}
	x, y := newHalf(), newHalf()
	a := &setupConn{nw: nw, owner: s.pid, peer: int(to), fail: fail, in: x, out: y}
	b := &setupConn{nw: nw, owner: int(to), peer: -1, in: y, out: x}
	nw.mx.Lock()
	nw.conns = append(nw.conns, a)
	nw.mx.Unlock()
	nw.queue[to] <- b
	return a, nil
}

func (s *setupServer) Listen() (network.Connection, error) {
	nw := s.nw
	nw.mx.Lock()
	fail := nw.listens[s.pid] > 0
	if fail {
		nw.listens[s.pid]--
	}
	nw.mx.Unlock()
	if fail {
		time.Sleep(time.Millisecond)
		return nil, errors.New("not listening")
	}
	select {
	case c := <-nw.queue[s.pid]:
		nw.mx.Lock()
		nw.conns = append(nw.conns, c)
		nw.mx.Unlock()
		mon.Tick()
		return c, nil
	case <-nw.down:
		time.Sleep(10 * time.Millisecond)
		return nil, errors.New("the network is down")
	}
}
func (s *setupServer) Stop() { s.nw.mx.Lock(); s.nw.stops++; s.nw.mx.Unlock() }

func runC30(c *mon.Ctx) {
	c.Parallel(c.Pick(220, 2500), 8, func(i int) {
		for try := 0; ; try++ {
			if !connect(c, c.Rng("session", i), i, time.Duration(120<<uint(try))*time.Millisecond, try == 6) {
				break
			}
			c.Count("retries", 1)
		}
	})
	// nothing is left of the servers
	if c.Violated() {
		return
	}
	var buf []byte
	for try := 0; try < 100; try++ {
		buf = make([]byte, 1<<24)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), mon.RepoPath+"pkg/sync") {
			c.Count("sessions_without_goroutines_left", 1)
			return
		}
		time.Sleep(100 * time.Millisecond)
		mon.Tick()
	}
	i := strings.Index(string(buf), mon.RepoPath+"pkg/sync")
	c.Violate("goroutine", "10 s after all servers were stopped, goroutines of theirs are left: ...%s", buf[max(0, i-600):min(len(buf), i+1500)])
}

// connect runs one session; it reports whether it has to be repeated because the machine was too slow.
func connect(c *mon.Ctx, r *rand.Rand, id int, lead time.Duration, last bool) (again bool) {
	n := []int{3, 2, 4, 5, 7, 3, 2, 12, 4, 1, 6}[id%11]
	if id%100 == 50 {
		n = 40
	}
	nw := &setupNet{n: n, closeErr: r.Intn(6), oneByOne: r.Intn(3) == 0, dials: map[[2]int][]int{}, listens: make([]int, n), slow: map[[2]int]time.Duration{}, down: make(chan bool)}
	planned := 0
	for p := 0; p < n; p++ {
		nw.queue = append(nw.queue, make(chan *setupConn, 100*n+100))
		if r.Intn(3) == 0 {
			nw.listens[p] = 1 + r.Intn(8)
			planned += nw.listens[p]
		}
		for q := 0; q < n; q++ {
			k := [2]int{p, q}
			if r.Intn(3) == 0 {
				nw.slow[k] = time.Duration(r.Intn(10)) * time.Millisecond
			}
			if r.Intn(2) == 0 && id%7 > 0 {
				x := 1 + r.Intn(4)
				if r.Intn(20) == 0 {
					x = 20 + r.Intn(30)
					nw.slow[k] /= 10
				}
				for ; x > 0; x-- {
					nw.dials[k] = append(nw.dials[k], 1+r.Intn(failKinds-1))
					planned++
				}
			}
		}
	}
	// connections of strangers, with indices that belong to nobody or to the party itself
	strays := 0
	for p := 0; p < n && n > 1; p++ {
		for x := r.Intn(4) - 1; x > 0; x-- {
			b := make([]byte, 2)
			binary.LittleEndian.PutUint16(b, []uint16{uint16(n), uint16(p), 65535, uint16(n + r.Intn(60000)), uint16(p + 256)}[r.Intn(5)])
			if v := binary.LittleEndian.Uint16(b); int(v) < n && int(v) != p {
				continue
			}
			y := newHalf()
			y.buf = b
			nw.queue[p] <- &setupConn{nw: nw, owner: p, peer: -1, in: y, out: newHalf()}
			strays++
		}
	}
	const (
		normal = iota
		late
		stopsFirst
		failsLater
	)
	mode := []int{normal, normal, late, normal, stopsFirst, failsLater}[id%6]
	if n == 1 {
		mode = normal
	}
	odd := r.Intn(n) // the party that comes late, or stops
	desc := fmt.Sprintf("session %d: %d parties, %d planned failures of set-up, %d strange connections, party %d %s", id, n, planned, strays, odd, []string{"is like the others", "comes after the start time", "stops without any round", "stops after the rounds"}[mode])
	defer c.Begin("%s", desc)()
	nw.start = time.Now().Add(lead + time.Duration(n*2)*time.Millisecond)
	srv := make([]rsync.Server, n)
	for p := range srv {
		srv[p] = rsync.NewServer(uint16(p), uint16(n), nw.start, simnet.RoundDuration, &setupServer{nw, p})
	}
	waits := make([]time.Duration, n)
	for p := range waits {
		waits[p] = time.Duration(r.Intn(50)) * time.Millisecond
	}
	rounds := 1 + r.Intn(3)
	type got struct {
		data map[int][]byte
		err  error
	}
	results := make([][]got, n)
	stopped := make([]bool, n)
	var wg sync.WaitGroup
	for p := 0; p < n; p++ {
		wg.Add(1)
		seed := r.Int63()
		go func(p int) {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seed))
			time.Sleep(waits[p])
			srv[p].Start()
			if rr.Intn(2) == 0 {
				time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
			}
			if p == odd && mode == stopsFirst {
				srv[p].Stop()
				return
			}
			if p == odd && mode == late {
				time.Sleep(time.Until(nw.start) + 30*time.Millisecond)
			}
			k := rounds
			if mode == failsLater && p != odd {
				k++
			}
			for i := 0; i < k; i++ {
				var send [][]byte
				for q := 0; q < n; q++ {
					send = append(send, []byte(fmt.Sprintf("%d: %d to %d, round %d", id, p, q, i)))
				}
				g := got{data: map[int][]byte{}}
				g.err = srv[p].Round(send, func(q uint16, d []byte) error {
					if _, twice := g.data[int(q)]; twice {
						g.err = fmt.Errorf("data of party %d twice", q)
					}
					g.data[int(q)] = append([]byte{}, d...)
					return nil
				})
				results[p] = append(results[p], g)
				if g.err != nil {
					if p != odd && strings.Contains(g.err.Error(), "start time") {
						// too late by accident: the others must not wait
						srv[p].Stop()
						stopped[p] = true
					}
					break
				}
			}
			if p == odd {
				srv[p].Stop()
			}
		}(p)
	}
	wg.Wait()
	defer close(nw.down)
	for p := range srv {
		if p != odd && !stopped[p] {
			srv[p].Stop()
		}
	}
	mon.Tick()
	for p := range results {
		for i, g := range results[p] {
			if i == 0 && g.err != nil && strings.Contains(g.err.Error(), "start time") && !(mode == late && p == odd) && !last {
				return true
			}
		}
	}
	nw.mx.Lock()
	conns := append([]*setupConn{}, nw.conns...)
	nw.mx.Unlock()
	usable := map[[2]int]int{}
	for _, x := range conns {
		x.mx.Lock()
		if x.early {
			c.Violate("early", "%s\nparty %d sends data of a round to party %d before the start time", desc, x.owner, x.peer)
		}
		if !x.closed {
			c.Violate("open", "%s\nafter Stop of party %d a connection of it (to party %d; -1: accepted) is open; it broke itself: %v", desc, x.owner, x.peer, x.broken)
		}
		if x.peer >= 0 && !x.broken {
			usable[[2]int{x.owner, x.peer}]++
		}
		if x.peer >= 0 && !x.broken && mode == late && x.owner == odd && x.written > 2 {
			c.Violate("late-sends", "%s\nthe party that comes late sends %d bytes to party %d", desc, x.written, x.peer)
		}
		c.Count("connection_ends", 1)
		x.mx.Unlock()
	}
	for p := 0; p < n; p++ {
		c.Eval("%d/%d", id, p)
		for q := 0; q < n; q++ {
			if k := usable[[2]int{p, q}]; p != q && k != 1 {
				c.Violate("connections", "%s\nparty %d has %d connections to party %d", desc, p, k, q)
			}
		}
		if p == odd && mode == stopsFirst {
			continue
		}
		for i, g := range results[p] {
			what := fmt.Sprintf("%s\nparty %d, round %d: ", desc, p, i)
			switch {
			case mode == late && p == odd:
				if g.err == nil {
					c.Violate("late", "%sno error after the start time", what)
				}
				c.Count("late_parties", 1)
				continue
			case mode == late, mode == stopsFirst, mode == failsLater && i == rounds:
				e, ok := g.err.(*rsync.RoundError)
				if !ok || len(e.Missing()) != 1 || int(e.Missing()[0]) != odd {
					c.Violate("stopped", "%sparty %d is gone: %v", what, odd, g.err)
					continue
				}
				c.Count("stopped_peers_noticed", 1)
			case g.err != nil:
				c.Violate("failed", "%s%v", what, g.err)
				continue
			}
			var missing []int
			for q := 0; q < n; q++ {
				want := []byte(fmt.Sprintf("%d: %d to %d, round %d", id, q, p, i))
				if q != p && !bytes.Equal(g.data[q], want) && !(g.err != nil && q == odd) {
					missing = append(missing, q)
				}
			}
			sort.Ints(missing)
			if len(missing) > 0 {
				c.Violate("data", "%sthe data of %v is wrong: %q", what, missing, g.data)
			}
			c.Count("rounds", 1)
		}
		if len(results[p]) == 0 {
			c.Violate("rounds", "%s\nparty %d did no round", desc, p)
		}
	}
	c.Count("planned_failures", int64(planned))
	c.Count("strange_connections", int64(strays))
	if id < 6 {
		c.Sample("%s: %d connection ends", desc, len(conns))
	}
	return false
}
