package fullmon

import (
	"fmt"
	"sync"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// hub runs the rounds of committees that are too large for real connections: every party is a
// goroutine, and a round hands over everybody's data once all have sent theirs.
type hub struct {
	mx   sync.Mutex
	cond *sync.Cond
	n    int
	sent map[int][][][]byte // by round and sender
	got  map[int]int
	dead bool
}

type hubServer struct {
	h   *hub
	pid int
	rd  int
}

func newHub(n int) *hub {
	h := &hub{n: n, sent: map[int][][][]byte{}, got: map[int]int{}}
	h.cond = sync.NewCond(&h.mx)
	return h
}

func (s *hubServer) Start() {}
func (s *hubServer) Stop()  {}

func (s *hubServer) Round(toSend [][]byte, check func(uint16, []byte) error) error {
	h, rd := s.h, s.rd
	s.rd++
	var cp [][]byte
	for _, b := range toSend {
		cp = append(cp, append([]byte{}, b...))
	}
	h.mx.Lock()
	if h.sent[rd] == nil {
		h.sent[rd] = make([][][]byte, h.n)
	}
	h.sent[rd][s.pid] = cp
	h.got[rd]++
	h.cond.Broadcast()
	for h.got[rd] < h.n && !h.dead {
		h.cond.Wait()
	}
	all, ok := h.sent[rd], h.got[rd] == h.n
	h.mx.Unlock()
	mon.Tick()
	if !ok {
		return fmt.Errorf("round %d: a party failed", rd)
	}
	for p, d := range all {
		if p == s.pid {
			continue
		}
		b := d[0]
		if len(d) > 1 {
			b = d[s.pid]
		}
		if err := check(uint16(p), append([]byte{}, b...)); err != nil {
			return fmt.Errorf("round %d: party %d: %v", rd, p, err)
		}
	}
	return nil
}

// run runs an operation at all parties of the hub, each with its own randomness.
func (h *hub) run(src []*rnd.Source, f func(p int) error) []error {
	errs := make([]error, h.n)
	var wg sync.WaitGroup
	for p := 0; p < h.n; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[p] = &simnet.PanicError{V: r}
				}
				if errs[p] != nil {
					h.mx.Lock()
					h.dead = true
					h.cond.Broadcast()
					h.mx.Unlock()
				}
			}()
			simnet.WithSource(src[p], func() { errs[p] = f(p) })
		}(p)
	}
	wg.Wait()
	return errs
}

// largeKeys generates a key among more parties than fit a byte, for C10, and uses it in the
// Diffie-Hellman check, for C18.
func largeKeys(c *mon.Ctx, n, id int, checkDH bool) {
	desc := fmt.Sprintf("%d parties in lockstep", n)
	defer c.Begin("%s", desc)()
	r := c.Rng("hub", n, id)
	h := newHub(n)
	g := curve.NewSecp256k1Group()
	src := make([]*rnd.Source, n)
	srv := make([]*hubServer, n)
	keys := make([]*arith.DKey, n)
	for p := range src {
		src[p] = rnd.New(r.Int63())
		src[p].StartLog()
		srv[p] = &hubServer{h: h, pid: p}
	}
	errs := h.run(src, func(p int) (err error) {
		keys[p], err = arith.GenExpReveal(uint16(p), "large", srv[p], uint16(n), g)
		return
	})
	for p, e := range errs {
		if e != nil {
			c.Violate("failed", "%s\nkey generation by honest parties fails at party %d: %v", desc, p, e)
			return
		}
	}
	last := h.sent[srv[0].rd-1]
	pk, x := ref.Inf, bi(0)
	for p := range last {
		a, _, err := ref.DecodePt(last[p][0])
		if err != nil {
			c.Violate("announced", "%s\nparty %d reveals no group element", desc, p)
			return
		}
		s := dlog(a, src[p].Log())
		if s == nil {
			c.Violate("share", "%s\nthe share announced by party %d is not the generator times anything it drew", desc, p)
			return
		}
		pk, x = pk.Add(a), modN(add(x, s))
	}
	for p := range keys {
		q, ok := coremon.ToRef(g, keys[p].PublicKey())
		if !ok || !q.Eq(pk) {
			c.Violate("pk", "%s\nparty %d has the public key %v, the sum of the announced shares is %v", desc, p, q, pk)
			return
		}
		if !checkDH {
			c.Eval("hub/%d/%d/%d", n, id, p)
		}
	}
	c.Max("largest_committee", int64(n))
	u := ref.Base(coremon.RandScalar(r))
	for st := 0; st < 2; st++ {
		v := u.Mul(x)
		if st == 1 {
			v = v.Add(ref.G)
		}
		errs := h.run(src, func(p int) error {
			return arith.CheckDH(coremon.FromRef(g, u), coremon.FromRef(g, v), g, keys[p])
		})
		for p, e := range errs {
			if (e == nil) != (st == 0) {
				c.Violate("verdict", "%s\nCheckDH at party %d: %v, but v = x*u is %v", desc, p, e, st == 0)
				return
			}
			if checkDH {
				c.Eval("hub/%d/%d/%d/%d", n, id, st, p)
			}
		}
	}
}
