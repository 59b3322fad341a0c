package fullmon

import (
	"fmt"
	"math/big"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// C17 monitors multiplication.
var C17 = &mon.Monitor{
	Rule:    "one evaluation is one multiplication by 1 to 6 parties with Paillier moduli from 1024 bits: outputs of the private multiplication must sum to the product of the sums (edge and random shares, zero and order-1 shares included), and products of distributed secrets, multiplied further up to 4 times, must reveal and exponentiate to the product under the given label with unchanged inputs and keys; distinct by session and step",
	MinEval: 150,
	Run:     runC17,
}

func runC17(c *mon.Ctx) {
	bits := []int{1024, 1025, 1100, 2048}
	for _, b := range bits {
		n := 11
		if b == 2048 {
			n = 3
		}
		paillierKeys(n, b)
	}
	es := coremon.EdgeScalars()
	c.Parallel(c.Pick(150, 1500), 10, func(i int) {
		r := c.Rng("priv", i)
		b := bits[i%4]
		n := size(c, i, 1+r.Intn(6))
		if b == 2048 {
			n = 2 + r.Intn(2)
		}
		o := netOpts(r, n)
		k := newKit(c, r, o, fmt.Sprintf("private multiplication %d: %s, moduli of %d bits", i, describe(o), b))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		privs, pubs := paillierKeys(n, b)
		for rep := 0; rep < 3; rep++ {
			as, bs := make([]*big.Int, n), make([]*big.Int, n)
			a0, b0 := make([]*big.Int, n), make([]*big.Int, n)
			for p := range as {
				as[p], bs[p] = coremon.RandScalar(r), coremon.RandScalar(r)
				if r.Intn(3) == 0 {
					as[p] = modN(es[r.Intn(len(es))])
				}
				if r.Intn(3) == 0 {
					bs[p] = modN(es[r.Intn(len(es))])
				}
				if rep == 1 && i%5 == 0 {
					as[p], bs[p] = sub(ref.N, bi(1)), sub(ref.N, bi(1))
				}
				a0[p], b0[p] = new(big.Int).Set(as[p]), new(big.Int).Set(bs[p])
			}
			out := make([]*big.Int, n)
			errs := k.AllCut(func(p int) (err error) {
				out[p], err = arith.PrivMult(as[p], bs[p], p, n, k.srv[p], privs[p], pubs[p], pubs)
				return err
			})
			if !k.ok("PrivMult", errs) {
				return
			}
			c.Eval("priv/%d/%d", i, rep)
			if got, want := sum(out), modN(mul(sum(a0), sum(b0))); got.Cmp(want) != 0 {
				c.Violate("product", "%s\na shares %x\nb shares %x\nthe outputs sum to %x, want %x", k.desc, a0, b0, got, want)
				return
			}
			for p := range as {
				if as[p].Cmp(a0[p]) != 0 || bs[p].Cmp(b0[p]) != 0 {
					c.Violate("changed", "%s\nthe inputs of party %d are changed", k.desc, p)
				}
				if n > 1 && (out[p].Sign() < 0 || out[p].Cmp(ref.N) >= 0) {
					c.Count("outputs_not_reduced", 1)
				}
				if privs[p].N.Cmp(pubs[p].N) != 0 {
					c.Violate("changed", "%s\nthe keys of party %d are changed", k.desc, p)
				}
			}
		}
		c.Count("private_multiplications", 3)
	})
	c.Parallel(c.Pick(48, 480), 8, func(i int) {
		r := c.Rng("mult", i)
		n := size(c, i, 2, 3, 1, 4, 3, 5)
		o := netOpts(r, n)
		o.MaxDelay /= 3
		k := newKit(c, r, o, fmt.Sprintf("multiplication %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		privs, pubs := paillierKeys(n, bits[i%3])
		type sec struct {
			ads []*arith.ADSecret
			tds []*arith.TDSecret
			val *big.Int // sum of the additive shares
		}
		var all []*sec
		for j := 0; j < 3; j++ {
			if r.Intn(2) == 0 {
				for p := 0; p < n; p++ {
					k.genScript(p, modN(es[r.Intn(len(es))]))
				}
			}
			d := k.deal(fmt.Sprint("s", j))
			if d == nil {
				return
			}
			if d.val == nil {
				c.Violate("share", "%s\na commitment opens to nothing its party drew", k.desc)
				return
			}
			all = append(all, &sec{ads: d.ads, val: d.val})
		}
		steps := c.Pick(3, 5)
		if i < 3 {
			steps = c.Pick(16, 60)
		}
		for st := 0; st < steps; st++ {
			a, b := all[r.Intn(len(all))], all[r.Intn(len(all))]
			if st > 0 && r.Intn(2) == 0 {
				a = all[len(all)-1]
			}
			label := fmt.Sprintf("prod %d", st)
			what := fmt.Sprintf("step %d: %x times %x", st, a.val, b.val)
			z, errs := k.mult(a.ads, b.ads, label, privs, pubs)
			if !k.ok(what, errs) {
				return
			}
			s := &sec{ads: z, val: modN(mul(a.val, b.val))}
			c.Eval("mult/%d/%d", i, st)
			for j, x := range []*sec{s, a, b} {
				if j > 0 && r.Intn(2) == 0 {
					continue
				}
				what := what
				if j > 0 {
					what += fmt.Sprintf(", input %d afterwards", j)
				}
				for p := range x.ads {
					if j == 0 && x.ads[p].Label() != label {
						c.Violate("label", "%s\n%s: the product of party %d is labelled %q", k.desc, what, p, x.ads[p].Label())
					}
				}
				t := 1 + r.Intn(n)
				tds, errs := k.reshare(x.ads, t)
				if !k.ok(what+": Reshare", errs) {
					return
				}
				vals, errs := k.reveal(k.alive(), tds)
				if !k.ok(what+": Reveal", errs) {
					return
				}
				for p := range vals {
					if !k.checkValue("value", fmt.Sprintf("%s at party %d", what, p), vals[p], ref.Base(x.val), x.val) {
						return
					}
				}
				keys, errs := k.exp(k.alive(), tds)
				if !k.ok(what+": Exp", errs) {
					return
				}
				for p := range keys {
					if !k.checkKey("value", fmt.Sprintf("%s at party %d", what, p), keys[p], ref.Base(x.val)) {
						return
					}
				}
			}
			all = append(all, s)
			if i < 4 && st == 0 {
				c.Sample("%s, %s", k.desc, what)
			}
		}
		c.Count("multiplications", 3)
	})
}
