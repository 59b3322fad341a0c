package fullmon

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"aaa.vmon/mon"
	"aaa.vmon/rnd"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// C22 runs whole sessions in the race-detector build.
var C22 = &mon.Monitor{
	Rule:    "one evaluation is one operation of one party in a session run under the race detector: connection set-up, rounds, key generation, secret generation, resharing, exponentiation, revealing, multiplication, linear combination, Diffie-Hellman check, presigning and signing by 2 to 5 parties without any barrier between them, on a network that synchronises nothing but the two ends of each connection, with random delays and fragmentation, with parties crashing at random moments or at random operations, with hostile messages, and with shutdown during and after rounds; the detector sees every memory access of the executed schedules; distinct_interleavings counts different orders in which the chunks of a session became readable",
	MinEval: 600,
	Assume:  []string{"the race detector reports races between accesses that are unordered in an executed schedule"},
	RaceRun: runC22,
}

type racer struct {
	c      *mon.Ctx
	s      *simnet.Session
	p      int
	r      *rand.Rand
	t      int
	n      int
	egf    *commitment.ElGamalFactory
	g      curve.Group
	ops    []string
	failed int
}

func (w *racer) step(name string, err error) bool {
	w.ops = append(w.ops, name)
	if err != nil {
		w.failed++
	}
	return err == nil
}

func (w *racer) signing() {
	n, srv := uint16(w.n), w.s.Srv[w.p]
	pr, err := tecdsa.Init(uint16(w.p), n, srv)
	if !w.step("Init", err) {
		return
	}
	for i := 0; i < 2; i++ {
		w.step("Presign", pr.Presign(uint16(w.t)))
	}
	for i := 0; i < 2; i++ {
		_, err := pr.Sign(bi(int64(100 + i)))
		w.step("Sign", err)
	}
}

func (w *racer) arithmetic() {
	n, srv, pid := uint16(w.n), w.s.Srv[w.p], uint16(w.p)
	sk, pk := paillierKeys(w.n, 1024)
	key, err := arith.GenExpReveal(pid, "key", srv, n, w.g)
	if w.step("GenExpReveal", err) {
		w.step("CheckDH", arith.CheckDH(w.g.ScalarBaseMult(bi(7)), w.g.ScalarMult(key.PublicKey(), bi(7)), w.g, key))
	}
	a, err := arith.Gen("a", srv, w.egf, pid, n)
	if !w.step("Gen", err) {
		return
	}
	b, err := arith.Gen("b", srv, w.egf, pid, n)
	if !w.step("Gen", err) {
		return
	}
	ta, err := a.Reshare(uint16(w.t))
	if w.step("Reshare", err) {
		_, err = ta.Exp()
		w.step("Exp", err)
		_, err = ta.Reveal()
		w.step("Reveal", err)
	}
	z, err := arith.Mult(a, b, "z", sk[w.p], pk[w.p], pk)
	if !w.step("Mult", err) {
		return
	}
	tz, err := z.Reshare(uint16(w.t))
	if w.step("Reshare", err) && ta != nil {
		l := arith.Lin(bi(3), bi(4), ta, tz, "l")
		_, err = l.Reveal()
		w.step("Reveal", err)
		_, err = l.Exp()
		w.step("Exp", err)
	}
}

func (w *racer) plain() {
	for i := 0; i < 25; i++ {
		var send [][]byte
		if i%2 == 0 {
			send = [][]byte{make([]byte, w.r.Intn(200))}
		} else {
			for q := 0; q < w.n; q++ {
				send = append(send, make([]byte, w.r.Intn(3000)))
			}
		}
		var keep [][]byte
		err := w.s.Srv[w.p].Round(send, func(q uint16, d []byte) error {
			keep = append(keep, d)
			if w.r.Intn(30) == 0 {
				return fmt.Errorf("no")
			}
			return nil
		})
		// buffers belong to their owners after the round
		for _, d := range send {
			for j := range d {
				d[j]++
			}
		}
		for _, d := range keep {
			for j := range d {
				d[j]++
			}
		}
		w.step("Round", err)
	}
}

func runC22(c *mon.Ctx) {
	paillierKeys(5, 1024)
	orders := map[uint64]bool{}
	var mx sync.Mutex
	c.Parallel(c.Pick(240, 2400), 4, func(i int) {
		r := c.Rng("session", i)
		n := []int{3, 2, 4, 3, 5, 2}[i%6]
		o := simnet.Opts{N: n, Seed: r.Int63(), Raw: true, Quiet: true}
		if r.Intn(2) == 0 {
			o.MaxDelay = time.Duration(1+r.Intn(1500)) * time.Microsecond
		}
		if r.Intn(2) == 0 {
			o.MaxRead = 1 + r.Intn(500)
		}
		kind := i / 6 % 3
		ending := i / 2 % 4 // clean, crash at an operation, crash at a moment, shutdown in a round
		desc := fmt.Sprintf("session %d: %s, work %s, ending %s", i, describe(o), []string{"signing", "arithmetic", "rounds"}[kind], []string{"clean", "a crash at an operation", "a crash at a moment", "shutdown while rounds go on"}[ending])
		defer c.Begin("%s", desc)()
		s, err := simnet.NewSession(o)
		if err != nil {
			c.Violate("start", "%s\n%v", desc, err)
			return
		}
		defer s.Down()
		for p := 0; p < n; p++ {
			s.Rnd = append(s.Rnd, rnd.New(r.Int63()))
		}
		g := curve.NewSecp256k1Group()
		h := g.ScalarBaseMult(bi(12345))
		egf := commitment.NewElGamalFactory(h)
		ws := make([]*racer, n)
		share := r.Intn(2) == 0
		for p := range ws {
			ws[p] = &racer{c: c, s: s, p: p, r: rand.New(rand.NewSource(r.Int63())), t: 1 + (i+n)%n, n: n, g: g, egf: egf}
			if !share {
				ws[p].g = curve.NewSecp256k1Group()
				ws[p].egf = commitment.NewElGamalFactory(ws[p].g.ScalarBaseMult(bi(12345)))
			}
		}
		victim := -1
		if ending > 0 {
			victim = r.Intn(n)
		}
		after := time.Duration(r.Intn(120)) * time.Millisecond
		errs := s.All(func(p int) error {
			w := ws[p]
			stop := func() { s.Srv[p].Stop() }
			switch {
			case p == victim && ending == 1:
				// dies after some operations
				if w.r.Intn(2) == 0 {
					_, err := arith.Gen("early", s.Srv[p], w.egf, uint16(p), uint16(n))
					w.step("Gen", err)
				}
				stop()
				return nil
			case p == victim && ending >= 2:
				done := make(chan bool)
				go func() {
					defer close(done)
					time.Sleep(after)
					if ending == 2 {
						s.Cut(uint16(p))
					} else {
						stop()
					}
				}()
				defer func() { <-done }()
			}
			switch kind {
			case 0:
				w.signing()
			case 1:
				w.arithmetic()
			case 2:
				w.plain()
			}
			stop()
			return nil
		})
		if p := simnet.Panicked(errs); p != nil {
			c.Violate("panic", "%s\n%v", desc, p)
			return
		}
		for p, w := range ws {
			for j, op := range w.ops {
				c.Eval("%d/%d/%d/%s", i, p, j, op)
			}
			c.Count("operations_failed", int64(w.failed))
			c.Count("operations", int64(len(w.ops)))
			if ending == 0 && kind != 2 && w.failed > 0 {
				c.Violate("failed", "%s\nan operation of party %d fails: %v", desc, p, w.ops)
			}
		}
		h64, k := s.Order()
		mx.Lock()
		orders[h64] = true
		mx.Unlock()
		c.Count("chunks_delivered", int64(k))
		if i < 6 {
			c.Sample("%s", desc)
		}
	})
	c.Count("distinct_interleavings", int64(len(orders)))
	// connection set-up with hostile connections, hostile frames and messages: the error paths
	c.Parallel(c.Pick(80, 800), 4, func(i int) { hostileSetup(c, c.Rng("setup", i), i) })
	c.Parallel(c.Pick(80, 800), 4, func(i int) { hostileFrames(c, c.Rng("frames", i), i, false) })
	var jobs []attack
	for _, o := range opRounds {
		for rd := 0; rd < o.rounds && rd < 8; rd++ {
			rng := c.Rng("attacks", rd, o.rounds)
			for j := 0; j < c.Pick(3, 20); j++ {
				jobs = append(jobs, attack{o.op, 2 + rng.Intn(2), 1 + rng.Intn(2), rd, rng.Intn(hCipher), rng.Intn(2) == 0, j, 0})
			}
		}
	}
	c.Parallel(len(jobs), 4, func(i int) {
		attackRun(c, c.Rng("attack", i), jobs[i], false)
		c.Eval("%v", jobs[i])
	})
	stopEarly(c)
}

// stopEarly shuts servers down right after their start, while they connect.
func stopEarly(c *mon.Ctx) {
	c.Parallel(c.Pick(80, 800), 4, func(i int) {
		r := c.Rng("stop", i)
		n := 2 + i%4
		defer c.Begin("shutdown %d right after the start, %d parties", i, n)()
		net := simnet.New(simnet.Opts{N: n, Seed: r.Int63(), Raw: true, Quiet: true})
		srv := make([]rsync.Server, n)
		start := time.Now().Add(30 * time.Millisecond)
		for p := range srv {
			srv[p] = rsync.NewServer(uint16(p), uint16(n), start, simnet.RoundDuration, net.Server(uint16(p)))
		}
		var wg sync.WaitGroup
		var rounds int64
		for p := range srv {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						c.Violate("panic", "shutdown %d right after the start, %d parties: panic %v", i, n, x)
					}
				}()
				srv[p].Start()
				if (p+i)%3 > 0 {
					srv[p].Round([][]byte{{1}}, func(uint16, []byte) error { return nil })
					atomic.AddInt64(&rounds, 1)
				}
				runtime.Gosched()
				srv[p].Stop()
			}(p)
		}
		wg.Wait()
		net.Down()
		c.Eval("stop/%d", i)
		c.Count("shutdowns", int64(n))
	})
}
