package coremon

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C06 checks completeness.
var C06 = &mon.Monitor{
	Rule:    "one evaluation is one honest proof (knowledge or refresh; base, value, randomness and refresh randomness random, edge, zero, at or above the order; nonces also tiny, zero or maximal) verified at its maker, after several transports of proof and commitments through fragmenting streams, at another party with its own factory of the same base, repeatedly, and after other proofs; distinct by base, witness and kind",
	MinEval: 400,
	Run:     runC06,
}

// transport sends bytes through a fragmenting stream.
func split(r *rand.Rand, b []byte) *splitReader {
	return &splitReader{b: append([]byte{}, b...), r: r, max: 1 + r.Intn(40), zero: r.Intn(2) == 0, withEOF: r.Intn(2) == 0}
}

func moveComm(r *rand.Rand, p *commitment.ElGamal) (*commitment.ElGamal, error) {
	q := &commitment.ElGamal{}
	return q, q.Decode(split(r, EncComm(p)))
}

func runC06(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	mk := c.Rng("bases")
	bases := []*egBase{newBase(g, "random1", RandScalar(mk)), newBase(g, "random2", RandScalar(mk)), newBase(g, "G", bi(1)), newBase(g, "-G", bi(-1)),
		newBase(g, "lambda", ref.Lambda), newBase(g, "neutral", bi(0)), newBase(g, "random3", RandScalar(mk))}
	n := c.Pick(1500, 40000)
	// nonces are scripted, so one at a time
	for i := 0; i < n && !c.Violated(); i++ {
		r := c.Rng("proof", i)
		b := bases[r.Intn(len(bases))]
		if r.Intn(2) == 0 {
			b = bases[[]int{0, 1, 6}[r.Intn(3)]]
		}
		v, rr, s := RandAnyScalar(r), RandAnyScalar(r), RandAnyScalar(r)
		if r.Intn(6) == 0 {
			v = bi(0)
		}
		if r.Intn(6) == 0 {
			rr = bi(0)
		}
		if r.Intn(6) == 0 {
			s = bi(0)
		}
		nonce := "free"
		switch r.Intn(8) {
		case 0:
			scriptSmall(r, 2)
			nonce = "short"
		case 1:
			rnd.S.Script(make([]byte, 64))
			nonce = "zero"
		case 2:
			rnd.S.Script(bytes.Repeat(sub(ref.N, bi(1)).Bytes(), 2))
			nonce = "maximal"
		case 3:
			// above the order first: has to be drawn again
			rnd.S.Script(append(bytes.Repeat([]byte{255}, 96), make([]byte, 31)...))
			nonce = "too large"
		}
		refresh := i%2 == 1
		desc := fmt.Sprintf("proof %d, refresh %v, base %s, value %x, randomness %x, refresh randomness %x, nonce %s", i, refresh, b.name, v, rr, s, nonce)
		if i < 4 {
			c.Sample("%s", desc)
		}
		c.Guard("honest", desc, func() { honest(c, b, r, refresh, v, rr, s, desc) })
		rnd.S.Script(nil)
	}
	// many proofs, verified afterwards in another order, and concurrently
	c.Parallel(c.Pick(12, 200), 8, func(i int) {
		r := c.Rng("batch", i)
		b := bases[i%2]
		type pr struct {
			k      *zkpok.ZKEGKnow
			f      *zkpok.ZKEGRefresh
			c1, c2 *commitment.ElGamal
			d      string
		}
		c.Guard("batch", fmt.Sprintf("batch %d", i), func() {
			var ps []pr
			prev := b.f.Create(RandScalar(r), RandScalar(r))
			for j := 0; j < 10; j++ {
				v, rr, s := RandScalar(r), RandScalar(r), RandScalar(r)
				c1 := b.f.Create(cp(v), cp(rr))
				k, err := zkpok.NewZKEGKnow(b.f, c1, cp(v), cp(rr))
				c2 := b.f.Neutral().Compose(prev, b.f.Create(bi(0), cp(s)))
				f, err2 := zkpok.NewZKEGRefresh(b.f, prev, c2, cp(s))
				if err != nil || err2 != nil {
					c.Violate("error", "honest proofs fail: %v, %v", err, err2)
					return
				}
				ps = append(ps, pr{k: k, c1: c1, d: fmt.Sprint("know ", j)}, pr{f: f, c1: prev, c2: c2, d: fmt.Sprint("refresh chain ", j)})
				prev = c2
			}
			r.Shuffle(len(ps), func(a, b int) { ps[a], ps[b] = ps[b], ps[a] })
			for _, p := range ps {
				c.Eval("batch %d %s", i, p.d)
				var err error
				if p.k != nil {
					err = p.k.Verify(b.f, p.c1)
				} else {
					err = p.f.Verify(b.f, p.c1, p.c2)
				}
				if err != nil {
					c.Violate("rejected", "batch %d: honest %s is rejected later: %v", i, p.d, err)
				}
			}
		})
	})
}

func honest(c *mon.Ctx, b *egBase, r *rand.Rand, refresh bool, v, rr, s *big.Int, desc string) {
	g := b.f.Curve()
	far := commitment.NewElGamalFactory(FromRef(g, b.h))
	var sl slots
	c1 := b.f.Create(sl.cp(v), sl.cp(rr))
	if r.Intn(3) == 0 {
		// the same commitment, made as a product
		a, d := RandScalar(r), RandScalar(r)
		c1 = b.f.Neutral().Compose(b.f.Create(sl.cp(a), sl.cp(d)), b.f.Create(new(big.Int).Mod(sub(v, a), ref.N), new(big.Int).Mod(sub(rr, d), ref.N)))
	}
	var c2 *commitment.ElGamal
	var err error
	var enc func() []byte
	var verify func(f *commitment.ElGamalFactory, x, y *commitment.ElGamal) error
	var again func(rd *splitReader) error
	if !refresh {
		p, e := zkpok.NewZKEGKnow(b.f, c1, sl.cp(v), sl.cp(rr))
		err = e
		verify = func(f *commitment.ElGamalFactory, x, _ *commitment.ElGamal) error { return p.Verify(f, x) }
		enc = func() []byte { return knowBytes(p) }
		again = func(rd *splitReader) error { p = &zkpok.ZKEGKnow{}; return p.Decode(rd) }
	} else {
		c2 = b.f.Neutral().Compose(c1, b.f.Create(bi(0), sl.cp(s)))
		p, e := zkpok.NewZKEGRefresh(b.f, c1, c2, sl.cp(s))
		err = e
		verify = func(f *commitment.ElGamalFactory, x, y *commitment.ElGamal) error { return p.Verify(f, x, y) }
		enc = func() []byte { return refrBytes(p) }
		again = func(rd *splitReader) error { p = &zkpok.ZKEGRefresh{}; return p.Decode(rd) }
	}
	c.Eval("%s", desc)
	if err != nil {
		c.Violate("error", "%s\nno proof is made: %v", desc, err)
		return
	}
	check := func(where string, f *commitment.ElGamalFactory, x, y *commitment.ElGamal) bool {
		if err := verify(f, x, y); err != nil {
			c.Violate("rejected", "%s\nrejected %s: %v", desc, where, err)
			return false
		}
		c.Count("verifications", 1)
		return true
	}
	if !check("at its maker", b.f, c1, c2) || !check("at its maker, the second time", b.f, c1, c2) || !check("by another factory", far, c1, c2) {
		return
	}
	for k := 0; k < 1+r.Intn(3); k++ {
		e := enc()
		rd := split(r, e)
		if err := again(rd); err != nil {
			c.Violate("transport", "%s\nits encoding %x does not decode: %v", desc, e, err)
			return
		}
		x, err := moveComm(r, c1)
		if err != nil {
			c.Violate("transport", "%s\ncommitment does not decode: %v", desc, err)
			return
		}
		y := c2
		if c2 != nil {
			if y, err = moveComm(r, c2); err != nil {
				c.Violate("transport", "%s\ncommitment does not decode: %v", desc, err)
				return
			}
		}
		if !check(fmt.Sprintf("after %d transports", k+1), far, x, y) || !check("after transport of the proof alone", b.f, c1, c2) {
			return
		}
		if e2 := enc(); !bytes.Equal(e, e2) {
			c.Violate("transport", "%s\nchanges in transport from %x to %x", desc, e, e2)
		}
	}
}
