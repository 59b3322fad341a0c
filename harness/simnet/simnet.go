// Package simnet is an in-memory network under the real round server. It sees every byte, splits
// the streams into frames, and can delay, fragment, alter, cut and replay them.
package simnet

import (
	"encoding/binary"
	"errors"
	"hash/fnv"
	"io"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"aaa.vmon/mon"
	"gitlab.com/alephledger/core-go/pkg/network"
)

// Frame is one message of a round as it was written by the sender.
type Frame struct {
	From, To uint16
	Seq      int   // index on this link
	Round    int64 // as in the header
	Pid      uint16
	Data     []byte // payload
	Raw      []byte // whole frame
}

// Verdict tells what to do with a frame. The zero value delivers it unchanged.
type Verdict struct {
	Replace [][]byte // raw byte chunks delivered instead, when not nil
	Drop    bool
	Close   bool          // close the connection after delivering
	Delay   time.Duration // added to the delivery time of this and later bytes
}

// Opts configures a network.
type Opts struct {
	N         int
	Seed      int64
	MaxDelay  time.Duration // random delay per frame and link
	MaxRead   int           // > 0: reads return at most a random number of bytes up to this
	Buffer    int           // > 0: flushing blocks while this many bytes are unread
	Record    bool          // keep all frames
	Raw       bool          // do not look for frames: forward what is flushed
	Quiet     bool          // with Raw: nothing but the two ends of a pipe is synchronised, for the race detector
	OnFrame   func(f *Frame) Verdict
	Handshake func(from, to uint16, b []byte) []byte // replaces the 2 bytes of the handshake
}

// Net is the network.
type Net struct {
	o       Opts
	mx      sync.Mutex
	rng     *rand.Rand
	onFrame func(f *Frame) Verdict
	frames  []*Frame
	nFrames int64
	nBytes  int64
	servers []*server
	conns   []*conn
	down    chan struct{}
	once    sync.Once
}

type item struct {
	at time.Time
	b  []byte
}

// pipe is one direction of a connection.
type pipe struct {
	mx      sync.Mutex
	cond    *sync.Cond
	q       []item
	size    int
	lastAt  time.Time
	closedW bool // the writer closed: read the rest, then EOF
	closedR bool // the reader closed: writes fail
	rng     *rand.Rand
	maxRead int
	limit   int
	quiet   time.Duration // random delay up to this, drawn here
	times   []int64       // when something was written, if quiet
	logTime bool
}

func newPipe(seed int64, maxRead, limit int) *pipe {
	p := &pipe{rng: rand.New(rand.NewSource(seed)), maxRead: maxRead, limit: limit}
	p.cond = sync.NewCond(&p.mx)
	return p
}

func (p *pipe) read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	p.mx.Lock()
	defer p.mx.Unlock()
	for {
		if p.closedR {
			return 0, errors.New("use of closed connection")
		}
		if len(p.q) > 0 {
			d := time.Until(p.q[0].at)
			if d <= 0 {
				break
			}
			time.AfterFunc(d, func() { p.mx.Lock(); p.cond.Broadcast(); p.mx.Unlock() })
		} else if p.closedW {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
	max := len(b)
	if p.maxRead > 0 {
		if m := 1 + p.rng.Intn(p.maxRead); m < max {
			max = m
		}
	}
	n := copy(b[:max], p.q[0].b)
	if n == len(p.q[0].b) {
		p.q = p.q[1:]
	} else {
		p.q[0].b = p.q[0].b[n:]
	}
	p.size -= n
	if p.limit > 0 {
		p.cond.Broadcast()
	}
	mon.Tick()
	return n, nil
}

func (p *pipe) write(b []byte, delay time.Duration) error {
	for first := true; first || len(b) > 0; first = false {
		p.mx.Lock()
		for p.limit > 0 && p.size >= p.limit && !p.closedR && !p.closedW {
			p.cond.Wait()
		}
		if p.closedR || p.closedW {
			p.mx.Unlock()
			return io.ErrClosedPipe
		}
		k := len(b)
		if p.limit > 0 && k > p.limit-p.size {
			k = p.limit - p.size
		}
		if k > 0 {
			if p.quiet > 0 {
				delay = time.Duration(p.rng.Int63n(int64(p.quiet)))
			}
			at := time.Now().Add(delay)
			if p.logTime {
				p.times = append(p.times, at.UnixNano())
			}
			if at.Before(p.lastAt) {
				at = p.lastAt
			}
			p.lastAt = at
			p.q = append(p.q, item{at, append([]byte{}, b[:k]...)})
			p.size += k
			b = b[k:]
			delay = 0 // the rest only waits for room
			p.cond.Broadcast()
		}
		p.mx.Unlock()
		mon.Tick()
	}
	return nil
}

func (p *pipe) closeW() { p.mx.Lock(); p.closedW = true; p.cond.Broadcast(); p.mx.Unlock() }
func (p *pipe) closeR() { p.mx.Lock(); p.closedR = true; p.cond.Broadcast(); p.mx.Unlock() }

// conn is one end of a connection.
type conn struct {
	net      *Net
	from, to uint16 // of the connection (dialler, listener)
	dialler  bool
	in, out  *pipe
	mx       sync.Mutex
	pending  []byte
	parse    []byte // bytes flushed but not yet a whole frame (dialler side)
	shook    bool
	seq      int
	failIn   int  // > 0: that operation from now breaks the connection
	failed   bool // it did
	once     bool // operations after the failing one pretend to succeed
}

// broken tells whether an operation fails; it counts the operations of an armed connection; c.mx is held.
func (c *conn) broken() bool {
	if c.failIn > 0 {
		if c.failIn--; c.failIn == 0 {
			c.failed = true
			c.shutdown()
			return true
		}
	}
	return c.failed && !c.once
}

func (c *conn) Read(b []byte) (int, error) { return c.in.read(b) }

func (c *conn) Write(b []byte) (int, error) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.broken() {
		return 0, io.ErrClosedPipe
	}
	c.pending = append(c.pending, b...)
	return len(b), nil
}

func (c *conn) Flush() error {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.broken() {
		return io.ErrClosedPipe
	}
	if c.failed {
		c.pending = nil
		return nil
	}
	b := c.pending
	c.pending = nil
	if !c.dialler {
		return c.out.write(b, 0)
	}
	if c.net.o.Raw {
		if len(b) == 0 {
			return nil
		}
		if c.net.o.Quiet {
			return c.out.write(b, 0)
		}
		atomic.AddInt64(&c.net.nFrames, 1)
		atomic.AddInt64(&c.net.nBytes, int64(len(b)))
		var d time.Duration
		if c.net.o.MaxDelay > 0 {
			c.net.mx.Lock()
			d = time.Duration(c.net.rng.Int63n(int64(c.net.o.MaxDelay)))
			c.net.mx.Unlock()
		}
		return c.out.write(b, d)
	}
	c.parse = append(c.parse, b...)
	if !c.shook {
		if len(c.parse) < 2 {
			return nil
		}
		h := append([]byte{}, c.parse[:2]...)
		c.parse = c.parse[2:]
		c.shook = true
		if c.net.o.Handshake != nil {
			h = c.net.o.Handshake(c.from, c.to, h)
			if h == nil {
				c.shutdown()
				return nil
			}
		}
		if err := c.out.write(h, 0); err != nil {
			return err
		}
	}
	// fail early, as a socket does
	c.out.mx.Lock()
	bad := c.out.closedR || c.out.closedW
	c.out.mx.Unlock()
	if bad {
		return io.ErrClosedPipe
	}
	for len(c.parse) >= 8 {
		l := binary.LittleEndian.Uint64(c.parse)
		if l > 1<<40 || uint64(len(c.parse)-8) < l {
			break
		}
		raw := append([]byte{}, c.parse[:8+l]...)
		c.parse = append([]byte{}, c.parse[8+l:]...)
		f := &Frame{From: c.from, To: c.to, Seq: c.seq, Raw: raw}
		c.seq++
		if l >= 10 {
			f.Pid = binary.LittleEndian.Uint16(raw[8:])
			f.Round = int64(binary.LittleEndian.Uint64(raw[10:]))
			f.Data = raw[18:]
		}
		if err := c.net.deliver(c, f); err != nil {
			return err
		}
	}
	return nil
}

func (n *Net) deliver(c *conn, f *Frame) error {
	atomic.AddInt64(&n.nFrames, 1)
	atomic.AddInt64(&n.nBytes, int64(len(f.Raw)))
	n.mx.Lock()
	if n.o.Record {
		n.frames = append(n.frames, f)
	}
	var d time.Duration
	if n.o.MaxDelay > 0 {
		d = time.Duration(n.rng.Int63n(int64(n.o.MaxDelay)))
	}
	h := n.onFrame
	n.mx.Unlock()
	var v Verdict
	if h != nil {
		v = h(f)
	}
	d += v.Delay
	chunks := v.Replace
	if chunks == nil {
		chunks = [][]byte{f.Raw}
	}
	if !v.Drop {
		for _, b := range chunks {
			if err := c.out.write(b, d); err != nil {
				return err
			}
		}
	}
	if v.Close {
		c.shutdown()
	}
	return nil
}

// shutdown is the dialler's side dying: what was delivered can still be read.
func (c *conn) shutdown() {
	c.out.closeW()
	c.in.closeR()
}

func (c *conn) Close() error {
	c.shutdown()
	return nil
}
func (c *conn) TimeoutAfter(t time.Duration) {}

type server struct {
	net *Net
	pid uint16
	ch  chan *conn
}

var errDown = errors.New("network is down")

func (s *server) Dial(pid uint16) (network.Connection, error) {
	n := s.net
	n.mx.Lock()
	if int(pid) >= n.o.N {
		n.mx.Unlock()
		return nil, errors.New("no such party")
	}
	ab := newPipe(n.rng.Int63(), n.o.MaxRead, n.o.Buffer)
	ba := newPipe(n.rng.Int63(), 0, 0)
	if n.o.Quiet {
		ab.quiet, ba.quiet = n.o.MaxDelay, n.o.MaxDelay
		ab.logTime, ba.logTime = true, true
	}
	a := &conn{net: n, from: s.pid, to: pid, dialler: true, in: ba, out: ab}
	b := &conn{net: n, from: s.pid, to: pid, in: ab, out: ba}
	n.conns = append(n.conns, a, b)
	n.mx.Unlock()
	select {
	case n.servers[pid].ch <- b:
		return a, nil
	case <-n.down:
		time.Sleep(10 * time.Millisecond)
		return nil, errDown
	}
}

func (s *server) Listen() (network.Connection, error) {
	select {
	case c := <-s.ch:
		return c, nil
	case <-s.net.down:
		// the code under test retries for ever: let it do so slowly
		time.Sleep(10 * time.Millisecond)
		return nil, errDown
	}
}
func (s *server) Stop() {}

// New makes a network.
func New(o Opts) *Net {
	n := &Net{o: o, rng: rand.New(rand.NewSource(o.Seed)), onFrame: o.OnFrame, down: make(chan struct{})}
	for i := 0; i < o.N; i++ {
		n.servers = append(n.servers, &server{n, uint16(i), make(chan *conn, 4*o.N)})
	}
	return n
}

// Server is the network as one party sees it.
func (n *Net) Server(pid uint16) network.Server { return n.servers[pid] }

// SetOnFrame changes the hook.
func (n *Net) SetOnFrame(h func(f *Frame) Verdict) { n.mx.Lock(); n.onFrame = h; n.mx.Unlock() }

// Frames returns what was recorded so far, in the order of sending.
func (n *Net) Frames() []*Frame {
	n.mx.Lock()
	defer n.mx.Unlock()
	return append([]*Frame{}, n.frames...)
}

// Mark returns the number of recorded frames; FramesSince returns the later ones.
func (n *Net) Mark() int { n.mx.Lock(); defer n.mx.Unlock(); return len(n.frames) }

// FramesSince returns the frames recorded after mark.
func (n *Net) FramesSince(mark int) []*Frame {
	n.mx.Lock()
	defer n.mx.Unlock()
	return append([]*Frame{}, n.frames[mark:]...)
}

// Stats returns the numbers of frames and bytes seen.
func (n *Net) Stats() (int64, int64) {
	return atomic.LoadInt64(&n.nFrames), atomic.LoadInt64(&n.nBytes)
}

// Order hashes the order in which chunks became readable in a quiet network, and counts them.
func (n *Net) Order() (uint64, int) {
	type ev struct {
		at   int64
		from uint16
		to   uint16
	}
	var evs []ev
	n.mx.Lock()
	cs := append([]*conn{}, n.conns...)
	n.mx.Unlock()
	for _, c := range cs {
		if !c.dialler {
			continue
		}
		c.out.mx.Lock()
		for _, t := range c.out.times {
			evs = append(evs, ev{t, c.from, c.to})
		}
		c.out.mx.Unlock()
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	h := fnv.New64a()
	for _, e := range evs {
		h.Write([]byte{byte(e.from), byte(e.to)})
	}
	return h.Sum64(), len(evs)
}

// Cut kills a party: all its connections close, what was sent before still arrives.
func (n *Net) Cut(pid uint16) {
	n.mx.Lock()
	cs := append([]*conn{}, n.conns...)
	n.mx.Unlock()
	for _, c := range cs {
		if c.dialler && c.from == pid || !c.dialler && c.to == pid {
			c.shutdown()
		}
	}
}

// CutLink closes the connection over which from sends to to, at the sender's end.
func (n *Net) CutLink(from, to uint16) {
	n.mx.Lock()
	cs := append([]*conn{}, n.conns...)
	n.mx.Unlock()
	for _, c := range cs {
		if c.dialler && c.from == from && c.to == to {
			c.shutdown()
		}
	}
}

// Break makes the k-th operation (Write or Flush) from now on a link fail at the sender and breaks the connection.
// With once, later operations succeed at the sender, without any effect, until Mend.
func (n *Net) Break(from, to uint16, k int, once bool) {
	n.eachLink(from, to, func(c *conn) { c.failIn = k; c.once = once })
}

// Mend disarms a link that did not break yet and tells whether it broke.
func (n *Net) Mend(from, to uint16) (broke bool) {
	n.eachLink(from, to, func(c *conn) { c.failIn, c.once = 0, false; broke = c.failed })
	return broke
}

func (n *Net) eachLink(from, to uint16, f func(c *conn)) {
	n.mx.Lock()
	cs := append([]*conn{}, n.conns...)
	n.mx.Unlock()
	for _, c := range cs {
		if c.dialler && c.from == from && c.to == to {
			c.mx.Lock()
			f(c)
			c.mx.Unlock()
		}
	}
}

// Inject writes raw bytes into the stream from one party to another.
func (n *Net) Inject(from, to uint16, b []byte) error {
	n.mx.Lock()
	cs := append([]*conn{}, n.conns...)
	n.mx.Unlock()
	for _, c := range cs {
		if c.dialler && c.from == from && c.to == to {
			return c.out.write(b, 0)
		}
	}
	return errors.New("no such link")
}

// Down ends everything: all connections break.
func (n *Net) Down() {
	n.once.Do(func() { close(n.down) })
	n.mx.Lock()
	cs := append([]*conn{}, n.conns...)
	n.mx.Unlock()
	for _, c := range cs {
		c.in.closeR()
		c.in.closeW()
		c.out.closeW()
		c.out.closeR()
	}
}

// RawFrame builds a frame.
func RawFrame(pid uint16, round int64, data []byte) []byte {
	b := make([]byte, 18+len(data))
	binary.LittleEndian.PutUint64(b, uint64(10+len(data)))
	binary.LittleEndian.PutUint16(b[8:], pid)
	binary.LittleEndian.PutUint64(b[10:], uint64(round))
	copy(b[18:], data)
	return b
}
