package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// C12 monitors commitment vectors.
var C12 = &mon.Monitor{
	Rule:    "one evaluation is one distributed secret (generated, reshared, a linear combination, a product, or a random nesting of these) whose commitments are tested from outside: resharing it makes every party prove, to every other, that the entry held for it opens to its share; the secret that comes out must be the sum of exactly the shares the parties publish when revealing and exponentiating it; where a commitment is on the wire, the monitor, who knows the discrete logarithm of the base, opens it and compares; distinct by session and step",
	MinEval: 250,
	Assume:  []string{"the proofs of knowledge made by resharing are sound (C07)"},
	Run:     runC12,
}

// item is a distributed secret in a program of operations.
type dsec struct {
	name   string
	ads    []*arith.ADSecret
	tds    []*arith.TDSecret // nil for additive ones
	t      int
	pts    []ref.Pt   // expected openings of the commitments, where known
	shares []*big.Int // the share of every party, where known
	val    *big.Int
}

func runC12(c *mon.Ctx) {
	paillierKeys(11, 1024)
	c.Parallel(c.Pick(100, 1000), 8, func(i int) {
		r := c.Rng("session", i)
		o := netOpts(r, size(c, i, 3, 2, 4, 1, 5, 3, 2))
		o.MaxDelay /= 3
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		k.commitments(r, i, c.Pick(5, 9))
	})
}

// lastCommitment finds the commitment at the end of a message.
func lastCommitment(b []byte) (ref.Comm, bool) {
	for off := len(b) - 8; off >= 0; off-- {
		if cm, rest, err := ref.DecodeComm(b[off:]); err == nil && len(rest) == 0 && len(b)-off >= 100 {
			return cm, true
		}
	}
	return ref.Comm{}, false
}

// probe tests the commitments of a secret: all parties accept all proofs, and the sum of the shares
// behind the commitments is the sum of the shares the parties use.
func (k *kit) probe(r *rand.Rand, s *dsec) bool {
	what := s.name
	t := 1 + r.Intn(k.N)
	re, errs := k.reshare(s.ads, t)
	for p, e := range errs {
		if e != nil {
			k.noPanic("Reshare", errs)
			k.c.Violate("vector", "%s\n%s: party %d does not accept the others' proofs for the commitments it holds: %v", k.desc, what, p, e)
			return false
		}
	}
	if s.shares != nil {
		vals, errs := k.reveal(k.alive(), re)
		if !k.ok("Reveal", errs) {
			return false
		}
		for p, v := range vals {
			if v.Cmp(sum(s.shares)) != 0 {
				k.c.Violate("opening", "%s\n%s: party %d: the committed shares sum to %x, the shares used by the parties to %x", k.desc, what, p, v, sum(s.shares))
				return false
			}
		}
	}
	return true
}

// use publishes the shares of a thresholded secret and compares.
func (k *kit) use(s *dsec) bool {
	if s.tds == nil {
		return true
	}
	m := k.Mark()
	vals, errs := k.reveal(k.alive(), s.tds)
	if !k.ok("Reveal", errs) {
		return false
	}
	shares := make([]*big.Int, k.N)
	if k.N == 1 {
		shares[0] = vals[0]
	} else {
		fr := k.rounds(k.FramesSince(m))
		for p := range shares {
			shares[p] = new(big.Int).SetBytes(sentBy(fr[0][p]))
		}
	}
	m = k.Mark()
	if _, errs := k.exp(k.alive(), s.tds); !k.ok("Exp", errs) {
		return false
	}
	if k.N > 1 {
		fr := k.rounds(k.FramesSince(m))
		for p := range shares {
			q, _, err := ref.DecodePt(sentBy(fr[0][p]))
			if err != nil || !q.Eq(ref.Base(shares[p])) {
				k.c.Violate("used", "%s\n%s: party %d exponentiates with another share than it reveals", k.desc, s.name, p)
				return false
			}
		}
	}
	for p := range shares {
		if s.shares != nil && s.shares[p] != nil && s.shares[p].Cmp(shares[p]) != 0 {
			k.c.Violate("used", "%s\n%s: party %d reveals the share %x, expected %x", k.desc, s.name, p, shares[p], s.shares[p])
			return false
		}
		if s.pts != nil && !s.pts[p].Eq(ref.Base(shares[p])) {
			k.c.Violate("opening", "%s\n%s: the commitment sent by party %d does not open to the share it reveals", k.desc, s.name, p)
			return false
		}
	}
	s.shares = shares
	for p, v := range vals {
		if s.val != nil && v.Cmp(s.val) != 0 {
			k.c.Violate("value", "%s\n%s: party %d reveals %x, expected %x", k.desc, s.name, p, v, s.val)
			return false
		}
	}
	return true
}

func (k *kit) commitments(r *rand.Rand, id, steps int) {
	c := k.c
	privs, pubs := paillierKeys(k.N, 1024)
	var all []*dsec
	for i := 0; i < 2; i++ {
		if r.Intn(3) == 0 {
			es := coremon.EdgeScalars()
			for p := 0; p < k.N; p++ {
				k.genScript(p, modN(es[r.Intn(len(es))]))
			}
		}
		d := k.deal(fmt.Sprint("s", i))
		if d == nil {
			return
		}
		if d.val == nil {
			c.Violate("opening", "%s\nGen: a commitment opens to nothing its party drew", k.desc)
			return
		}
		for p := range d.rs {
			if d.rs[p] == nil {
				c.Violate("opening", "%s\nGen: the first half of the commitment of party %d is no multiple of the generator by anything it drew", k.desc, p)
				return
			}
		}
		all = append(all, &dsec{name: fmt.Sprint("s", i), ads: d.ads, shares: d.shares, val: d.val})
	}
	for st := 0; st < steps; st++ {
		var tdi []*dsec
		for _, s := range all {
			if s.tds != nil {
				tdi = append(tdi, s)
			}
		}
		x := all[r.Intn(len(all))]
		y := all[r.Intn(len(all))]
		var s *dsec
		op := r.Intn(3)
		if st == 0 {
			op = 0
		} else if st == 1 {
			op = 1 + id%2
		}
		switch {
		case op == 0 || op == 1 && len(tdi) == 0:
			t := 1 + r.Intn(k.N)
			m := k.Mark()
			tds, errs := k.reshare(x.ads, t)
			s = &dsec{name: fmt.Sprintf("reshare(%s,%d)", x.name, t), tds: tds, ads: embed(tds), t: t}
			if !k.ok(s.name, errs) {
				return
			}
			if x.shares != nil {
				s.val = sum(x.shares)
			}
			if k.N > 1 {
				fr := k.rounds(k.FramesSince(m))
				for p := 0; p < k.N; p++ {
					cm, ok := lastCommitment(sentBy(fr[len(fr)-1][p]))
					if !ok {
						c.Violate("frame", "%s\n%s: no commitment in the last round", k.desc, s.name)
						return
					}
					s.pts = append(s.pts, cm.Open(k.dh))
				}
			}
		case op == 1:
			x, y = tdi[r.Intn(len(tdi))], tdi[r.Intn(len(tdi))]
			al, be := coremon.RandAnyScalar(r), coremon.RandAnyScalar(r)
			s = &dsec{name: fmt.Sprintf("(%x*%s+%x*%s)", al, x.name, be, y.name)}
			s.tds = make([]*arith.TDSecret, k.N)
			errs := k.All(func(p int) error {
				s.tds[p] = arith.Lin(new(big.Int).Set(al), new(big.Int).Set(be), x.tds[p], y.tds[p], "lin")
				return nil
			})
			if !k.ok("Lin", errs) {
				return
			}
			s.ads = embed(s.tds)
			s.t = x.t
			if y.t > s.t {
				s.t = y.t
			}
			if x.shares != nil && y.shares != nil {
				for p := range x.shares {
					s.shares = append(s.shares, modN(add(mul(al, x.shares[p]), mul(be, y.shares[p]))))
				}
			}
			if x.val != nil && y.val != nil && x.t == y.t {
				s.val = modN(add(mul(al, x.val), mul(be, y.val)))
			}
		default:
			m := k.Mark()
			ads, errs := k.mult(x.ads, y.ads, "prod", privs, pubs)
			s = &dsec{name: fmt.Sprintf("(%s*%s)", x.name, y.name), ads: ads}
			if !k.ok("Mult", errs) {
				return
			}
			if x.shares != nil && y.shares != nil && k.N > 1 {
				fr := k.rounds(k.FramesSince(m))
				tot := ref.Inf
				for p := 0; p < k.N; p++ {
					cm, ok := lastCommitment(sentBy(fr[2][p]))
					if !ok {
						c.Violate("frame", "%s\n%s: no commitment in the third round", k.desc, s.name)
						return
					}
					tot = tot.Add(cm.Open(k.dh))
				}
				if want := modN(mul(sum(x.shares), sum(y.shares))); !tot.Eq(ref.Base(want)) {
					c.Violate("opening", "%s\n%s: the commitments do not open to shares of the product", k.desc, s.name)
					return
				}
			}
		}
		c.Eval("%d/%d", id, st)
		c.Count([]string{"reshared", "linear_combinations", "products"}[map[bool]int{true: 0}[s.tds != nil && s.pts != nil]+map[bool]int{true: 1}[s.tds != nil && s.pts == nil]+map[bool]int{true: 2}[s.tds == nil]], 1)
		if !k.use(s) || !k.probe(r, s) {
			return
		}
		// the inputs are what they were
		if r.Intn(3) == 0 && !k.probe(r, x) {
			return
		}
		if len(s.name) < 600 {
			all = append(all, s)
		}
		if st == steps-1 && id < 4 {
			c.Sample("%s: %s", k.desc, s.name)
		}
	}
}
