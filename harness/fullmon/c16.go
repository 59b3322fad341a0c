package fullmon

import (
	"fmt"
	"math/big"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// C16 monitors linear combinations.
var C16 = &mon.Monitor{
	Rule:    "one evaluation is one linear combination (edge, random and overlong coefficients; a with itself, nested up to 5 deep, over different thresholds) revealed and exponentiated by all parties, and by exactly as many as the larger threshold asks for after the others crashed; value, key, label, threshold and the unchanged inputs are compared with the shares drawn; distinct by session and step",
	MinEval: 250,
	Run:     runC16,
}

func runC16(c *mon.Ctx) {
	es := coremon.EdgeScalars()
	c.Parallel(c.Pick(120, 1200), 10, func(i int) {
		r := c.Rng("session", i)
		o := netOpts(r, size(c, i, 3, 2, 4, 1, 5, 3, 2))
		o.MaxDelay /= 3
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		type sec struct {
			tds  []*arith.TDSecret
			val  *big.Int
			t    int
			name string
			sh   []*big.Int // shares as revealed, once they were
		}
		var all []*sec
		for j := 0; j < 3; j++ {
			if r.Intn(3) == 0 {
				for p := 0; p < k.N; p++ {
					k.genScript(p, modN(es[r.Intn(len(es))]))
				}
			}
			d := k.deal(fmt.Sprint("s", j))
			if d == nil {
				return
			}
			if d.val == nil {
				c.Violate("share", "%s\na commitment opens to nothing its party drew", k.desc)
				return
			}
			t := 1 + r.Intn(k.N)
			if j == 1 && r.Intn(2) == 0 {
				t = all[0].t
			}
			tds, errs := k.reshare(d.ads, t)
			if !k.ok("Reshare", errs) {
				return
			}
			all = append(all, &sec{tds, d.val, t, fmt.Sprintf("s%d(threshold %d)", j, t), nil})
		}
		steps := c.Pick(5, 9)
		for st := 0; st < steps; st++ {
			a, b := all[r.Intn(len(all))], all[r.Intn(len(all))]
			if r.Intn(6) == 0 {
				b = a
			}
			al, be := coremon.RandAnyScalar(r), coremon.RandAnyScalar(r)
			if r.Intn(2) == 0 {
				al = es[(i*7+st)%len(es)]
			}
			if r.Intn(2) == 0 {
				be = es[(i*3+st*5)%len(es)]
			}
			if r.Intn(4) == 0 {
				al = []*big.Int{bi(0), bi(0), bi(1), ref.N, sub(ref.N, bi(1))}[r.Intn(5)]
			}
			if r.Intn(4) == 0 {
				be = []*big.Int{bi(0), bi(0), bi(1), ref.N, sub(ref.N, bi(1))}[r.Intn(5)]
			}
			if a.sh != nil && b.sh != nil && r.Intn(3) == 0 {
				// one party's share becomes zero, the others' do not
				p := r.Intn(k.N)
				al, be = new(big.Int).Set(b.sh[p]), sub(ref.N, a.sh[p])
				c.Count("combinations_with_a_zero_share", 1)
			}
			what := fmt.Sprintf("step %d: %x * %s + %x * %s", st, al, a.name, be, b.name)
			label := fmt.Sprintf("lin %d", st)
			s := &sec{tds: make([]*arith.TDSecret, k.N), t: a.t, name: fmt.Sprintf("lin%d", st)}
			if b.t > s.t {
				s.t = b.t
			}
			s.val = modN(add(mul(al, a.val), mul(be, b.val)))
			m := k.Mark()
			errs := k.All(func(p int) error {
				x, y := new(big.Int).Set(al), new(big.Int).Set(be)
				s.tds[p] = arith.Lin(x, y, a.tds[p], b.tds[p], label)
				if x.Cmp(al) != 0 || y.Cmp(be) != 0 {
					c.Violate("changed", "%s\n%s: a coefficient is changed to %x, %x", k.desc, what, x, y)
				}
				return nil
			})
			if !k.ok("Lin", errs) {
				return
			}
			if len(k.FramesSince(m)) > 0 {
				c.Violate("sends", "%s\n%s: a linear combination sends messages", k.desc, what)
			}
			for p := 0; p < k.N; p++ {
				if s.tds[p] == nil || s.tds[p].Label() != label {
					c.Violate("label", "%s\n%s: wrong label at party %d", k.desc, what, p)
					return
				}
				if s.tds[p].Threshold() != uint16(s.t) {
					c.Violate("threshold", "%s\n%s: threshold %d at party %d, want %d", k.desc, what, s.tds[p].Threshold(), p, s.t)
				}
			}
			c.Eval("%d/%d", i, st)
			check := func(x *sec, key, what string, pids []int) bool {
				m := k.Mark()
				vals, errs := k.reveal(pids, x.tds)
				if rs := k.rounds(k.FramesSince(m)); len(pids) == k.N && k.N > 1 && len(rs) == 1 {
					x.sh = nil
					for p := 0; p < k.N; p++ {
						x.sh = append(x.sh, modN(new(big.Int).SetBytes(sentBy(rs[0][p]))))
					}
				}
				if len(pids) == k.N && !k.ok(what+": Reveal", errs) {
					return false
				}
				for _, p := range pids {
					if errs[p] != nil {
						c.Violate("failed", "%s\n%s: Reveal at party %d: %v", k.desc, what, p, errs[p])
						return false
					}
					if !k.checkValue(key, fmt.Sprintf("%s at party %d", what, p), vals[p], ref.Base(x.val), x.val) {
						return false
					}
				}
				keys, errs := k.exp(pids, x.tds)
				for _, p := range pids {
					if errs[p] != nil {
						k.noPanic("Exp", errs)
						c.Violate("failed", "%s\n%s: Exp at party %d: %v", k.desc, what, p, errs[p])
						return false
					}
					if !k.checkKey(key, fmt.Sprintf("%s at party %d", what, p), keys[p], ref.Base(x.val)) {
						return false
					}
				}
				return true
			}
			if !check(s, "value", what, k.alive()) {
				return
			}
			if st%2 == 0 && (!check(a, "input", what+": first input afterwards", k.alive()) || !check(b, "input", what+": second input afterwards", k.alive())) {
				return
			}
			if st%3 == 1 {
				// the combination is a secret like any other: it can be reshared, with the same value
				t := 1 + r.Intn(k.N)
				again, errs := k.reshare(embed(s.tds), t)
				if !k.ok(what+": Reshare of the combination", errs) {
					return
				}
				c.Count("combinations_reshared", 1)
				_ = again
			}
			if i%20 == 0 && st == 2 {
				// a long chain of combinations, looked at from time to time
				y := &sec{tds: s.tds, val: s.val, t: s.t, name: s.name}
				for depth := 1; depth <= c.Pick(60, 300); depth++ {
					z := all[r.Intn(len(all))]
					al, be := coremon.RandScalar(r), coremon.RandAnyScalar(r)
					if depth%2 == 0 {
						al = bi(1)
					}
					w := &sec{tds: make([]*arith.TDSecret, k.N), t: y.t, name: fmt.Sprintf("chain%d", depth)}
					if z.t > w.t {
						w.t = z.t
					}
					w.val = modN(add(mul(al, y.val), mul(be, z.val)))
					if errs := k.All(func(p int) error { w.tds[p] = arith.Lin(al, be, y.tds[p], z.tds[p], w.name); return nil }); !k.ok("Lin", errs) {
						return
					}
					y = w
					if depth%6 == 0 && !check(y, "value", fmt.Sprintf("combination %d of a chain", depth), k.alive()) {
						return
					}
				}
				c.Count("long_chains", 1)
			}
			all = append(all, s)
			if st == 0 && i < 4 {
				c.Sample("%s: %s", k.desc, what)
			}
			if st == steps-1 && k.N > 1 {
				// t parties are enough, t-1 are not
				for q := k.N - 1; q >= s.t; q-- {
					k.Cut(uint16(q))
				}
				var pids []int
				for q := 0; q < s.t; q++ {
					pids = append(pids, q)
				}
				if !check(s, "value", what+" by threshold many parties", pids) {
					return
				}
				if s.t > 1 {
					k.Cut(uint16(s.t - 1))
					pids = pids[:s.t-1]
					vals, errs := k.reveal(pids, s.tds)
					for _, p := range pids {
						if errs[p] == nil {
							c.Violate("toofew", "%s\n%s: %d parties reveal %x", k.desc, what, len(pids), vals[p])
						}
					}
				}
			}
		}
	})
}
