// Package roundmon monitors pkg/sync.
package roundmon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"aaa.vmon/mon"
	"aaa.vmon/simnet"
)

// All are the monitors of this package.
var All = map[string]*mon.Monitor{"C20": C20, "C21": C21}

// C20 checks the delivery of rounds over histories of calls.
var C20 = &mon.Monitor{
	Rule:    "one evaluation is one successful round at one party, in sessions of 1 to 12 real round servers over an in-memory network with random delays, fragmentation and bounded buffers, with broadcast and individual payloads of 0 bytes to 40 MiB (128 MiB in the thorough tier) that name sender, recipient and round: exactly one check call per peer, never two at once, none after the return, the bytes are those addressed to it in this round, payload buffers are overwritten after the return and delivered data is compared again at the end; no return precedes the last call of the same round; also one real party among 300 played by the monitor; distinct by session, party and round",
	MinEval: 500,
	Assume:  []string{"the network stand-in copies what is flushed, as a socket does"},
	Run:     runC20,
}

// payload is what from addresses to to (-1: everybody) in a round.
func payload(session int64, from, to, round, size int) []byte {
	b := make([]byte, size)
	r := rand.New(rand.NewSource(session*1000003 + int64(from)*10007 + int64(to)*101 + int64(round)*7))
	r.Read(b)
	if size >= 12 {
		binary.LittleEndian.PutUint32(b, uint32(from))
		binary.LittleEndian.PutUint32(b[4:], uint32(to))
		binary.LittleEndian.PutUint32(b[8:], uint32(round))
	}
	return b
}

func sizes(r *rand.Rand, big bool) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return r.Intn(20)
	case 3:
		return 240 + r.Intn(30)
	case 4:
		return 4090 + r.Intn(12)
	case 5:
		return 65530 + r.Intn(12)
	case 6:
		if big {
			return 1<<20 - r.Intn(3)
		}
		return 10000 + r.Intn(30000)
	case 7:
		// payloads that look like headers
		return []int{2, 8, 10, 18, 28}[r.Intn(5)]
	default:
		return r.Intn(2000)
	}
}

type call struct {
	pid  uint16
	data []byte // as handed over
	copy []byte
}

func runC20(c *mon.Ctx) {
	for i, b := range [][2]int{{300, 277}, {258, 1}, {520, 513}, {300, 255}}[:c.Pick(2, 4)] {
		bigCommittee(c, b[0], b[1], i, false)
	}
	huge(c)
	n := c.Pick(330, 4000)
	c.Parallel(n, 8, func(i int) {
		r := c.Rng("session", i)
		o := simnet.Opts{N: []int{2, 2, 3, 3, 4, 5, 6, 7, 8, 12, 1}[i%11], Seed: r.Int63(), Raw: true}
		if r.Intn(3) > 0 {
			o.MaxDelay = time.Duration(1+r.Intn(8)) * time.Millisecond
		}
		if r.Intn(2) == 0 {
			o.MaxRead = []int{1 + r.Intn(3), 16, 300, 5000}[r.Intn(4)]
		}
		if r.Intn(2) == 0 {
			o.Buffer = []int{20, 100, 1000, 70000}[r.Intn(4)]
		}
		deliver(c, r, o, i, c.Pick(12, 25))
	})
}

// huge has payloads of many megabytes, of sizes around powers of two.
func huge(c *mon.Ctx) {
	sizes := []int{1<<22 + 1, 1<<24 - 10, 1<<24 + 3, 40 << 20, 1<<26 + 1}
	if !c.Quick {
		sizes = append(sizes, 1<<27+5, 1<<28+1)
	}
	defer c.Begin("payloads of up to %d bytes", sizes[len(sizes)-1])()
	s, err := simnet.NewSession(simnet.Opts{N: 3, Seed: 1, Raw: true})
	if err != nil {
		c.Violate("start", "%v", err)
		return
	}
	defer s.Down()
	for k, size := range sizes {
		fill := func(from, to int) []byte {
			b := make([]byte, size)
			for i := 0; i < size; i += 4096 {
				binary.LittleEndian.PutUint32(b[i:size:size][:4:4], uint32(i*7+from*3+to+k))
				if i+8192 > size {
					break
				}
			}
			b[size-1] = byte(1 + from*3 + to)
			return b
		}
		errs := s.AllCut(func(me int) error {
			var send [][]byte
			if (me+k)%2 == 0 {
				send = [][]byte{fill(me, 9)}
			} else {
				for q := 0; q < 3; q++ {
					send = append(send, fill(me, q))
				}
			}
			calls := 0
			err := s.Srv[me].Round(send, func(pid uint16, data []byte) error {
				calls++
				to := me
				if (int(pid)+k)%2 == 0 {
					to = 9
				}
				if !bytes.Equal(data, fill(int(pid), to)) {
					c.Violate("bytes", "a payload of %d bytes from party %d to party %d arrives as %d other bytes", size, pid, me, len(data))
				}
				c.Max("largest_payload", int64(len(data)))
				return nil
			})
			if err == nil && calls != 2 {
				c.Violate("delivery", "%d check calls with payloads of %d bytes", calls, size)
			}
			return err
		})
		for me, e := range errs {
			c.Eval("huge %d %d", size, me)
			if e != nil {
				c.Violate("failed", "honest parties sending %d bytes: %v", size, e)
				return
			}
		}
	}
}

func deliver(c *mon.Ctx, r *rand.Rand, o simnet.Opts, id, rounds int) {
	desc := fmt.Sprintf("session %d: %d parties, delay up to %v, reads up to %d bytes, buffer %d", id, o.N, o.MaxDelay, o.MaxRead, o.Buffer)
	defer c.Begin("%s", desc)()
	s, err := simnet.NewSession(o)
	if err != nil {
		c.Violate("start", "%s\n%v", desc, err)
		return
	}
	defer s.Down()
	slow := o.MaxRead > 0 && o.MaxRead < 1000 || o.Buffer > 0 && o.Buffer < 2000
	sess := r.Int63n(1 << 30)
	n := o.N
	// the plan: what everybody sends in every round
	type plan struct {
		broadcast bool
		size      []int
		wait      time.Duration
	}
	plans := make([][]plan, rounds)
	for k := range plans {
		plans[k] = make([]plan, n)
		lag := r.Intn(n)
		for p := range plans[k] {
			pl := plan{broadcast: r.Intn(2) == 0, size: make([]int, n)}
			sz := sizes(r, !slow && r.Intn(4) == 0)
			for q := range pl.size {
				if !pl.broadcast {
					sz = sizes(r, false)
				}
				if slow && sz > 700 {
					sz %= 700
				}
				pl.size[q] = sz
			}
			if p == lag || r.Intn(4) == 0 {
				pl.wait = time.Duration(r.Intn(12000)) * time.Microsecond
			}
			plans[k][p] = pl
		}
	}
	var clock int64
	called := make([][]int64, rounds)
	returned := make([][]int64, rounds)
	for k := range called {
		called[k], returned[k] = make([]int64, n), make([]int64, n)
	}
	seeds := make([]int64, n)
	for p := range seeds {
		seeds[p] = r.Int63()
	}
	history := make([][][]call, n)
	for p := range history {
		history[p] = make([][]call, rounds)
	}
	errs := s.AllCut(func(me int) error {
		rr := rand.New(rand.NewSource(seeds[me]))
		buf := make([][]byte, n) // the same memory is used again and again
		for q := range buf {
			buf[q] = make([]byte, 1<<20+16)
		}
		if n == 1 {
			buf = buf[:1]
		}
		for k := 0; k < rounds; k++ {
			pl := plans[k][me]
			time.Sleep(pl.wait)
			var send [][]byte
			if pl.broadcast || n == 1 {
				b := buf[0][:pl.size[0]]
				copy(b, payload(sess, me, -1, k, len(b)))
				send = [][]byte{b}
			} else {
				for q := 0; q < n; q++ {
					b := buf[q][:pl.size[q]]
					copy(b, payload(sess, me, q, k, len(b)))
					send = append(send, b)
				}
			}
			var inside, over int32
			var mx sync.Mutex
			var calls []call
			act := rr.Intn(4)
			atomic.StoreInt64(&called[k][me], atomic.AddInt64(&clock, 1))
			err := s.Srv[me].Round(send, func(pid uint16, data []byte) error {
				if atomic.AddInt32(&inside, 1) != 1 {
					c.Violate("concurrent", "%s\nparty %d, round %d: two check calls at the same time", desc, me, k)
				}
				if atomic.LoadInt32(&over) != 0 {
					c.Violate("late", "%s\nparty %d, round %d: a check call after Round returned", desc, me, k)
				}
				mx.Lock()
				calls = append(calls, call{pid, data, append([]byte{}, data...)})
				mx.Unlock()
				if act == 0 {
					time.Sleep(300 * time.Microsecond)
				}
				atomic.AddInt32(&inside, -1)
				return nil
			})
			atomic.StoreInt32(&over, 1)
			atomic.StoreInt64(&returned[k][me], atomic.AddInt64(&clock, 1))
			if err != nil {
				return fmt.Errorf("party %d, round %d of honest parties: %v", me, k, err)
			}
			for q, b := range send {
				to := q
				if len(send) == 1 {
					to = -1
				}
				if !bytes.Equal(b, payload(sess, me, to, k, len(b))) {
					c.Violate("sent", "%s\nparty %d, round %d: Round changed the data it was given to send", desc, me, k)
				}
				for j := range b {
					b[j] ^= 0x5a
				}
			}
			mx.Lock()
			history[me][k] = calls
			mx.Unlock()
		}
		return nil
	})
	for _, e := range errs {
		if e == nil {
			continue
		}
		c.Violate("failed", "%s\n%v", desc, e)
		return
	}
	fr, by := s.Stats()
	c.Count("flushes", fr)
	c.Count("bytes", by)
	c.Count("sessions", 1)
	for k := 0; k < rounds; k++ {
		lastCall, firstReturn := int64(0), int64(1<<62)
		for p := 0; p < n; p++ {
			if called[k][p] > lastCall {
				lastCall = called[k][p]
			}
			if returned[k][p] < firstReturn {
				firstReturn = returned[k][p]
			}
		}
		if n > 1 && firstReturn < lastCall {
			c.Violate("barrier", "%s\nround %d: a party returned (event %d) before another one called (event %d)", desc, k, firstReturn, lastCall)
		}
		for me := 0; me < n; me++ {
			c.Eval("%d/%d/%d", id, k, me)
			seen := map[uint16]int{}
			for _, cl := range history[me][k] {
				seen[cl.pid]++
				c.Count("deliveries", 1)
				c.Max("largest_payload", int64(len(cl.copy)))
				if int(cl.pid) >= n || int(cl.pid) == me {
					c.Violate("delivery", "%s\nparty %d, round %d: data of party %d", desc, me, k, cl.pid)
					continue
				}
				pl := plans[k][cl.pid]
				to := me
				if pl.broadcast {
					to = -1
				}
				want := payload(sess, int(cl.pid), to, k, pl.size[me])
				if !bytes.Equal(cl.copy, want) {
					c.Violate("bytes", "%s\nparty %d, round %d, from %d: got %d bytes %x, want %d bytes %x", desc, me, k, cl.pid, len(cl.copy), head(cl.copy), len(want), head(want))
				} else if !bytes.Equal(cl.data, want) {
					c.Violate("changed", "%s\nparty %d, round %d, from %d: the delivered data has changed since to %x", desc, me, k, cl.pid, head(cl.data))
				}
			}
			for q := 0; q < n; q++ {
				if q != me && seen[uint16(q)] != 1 {
					c.Violate("delivery", "%s\nparty %d, round %d: %d check calls for party %d", desc, me, k, seen[uint16(q)], q)
				}
			}
		}
	}
	if id < 5 {
		c.Sample("%s: %d rounds delivered", desc, rounds)
	}
	// shutting down ends
	s.All(func(me int) error { s.Srv[me].Stop(); return nil })
}

func head(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}
