package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"time"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C18 monitors the Diffie-Hellman check.
var C18 = &mon.Monitor{
	Rule:    "one evaluation is the verdict of one party on one pair of points with a key whose secret the monitor knows (keys built from edge and random shares by 1 to 6 parties, and generated ones, also of 12 and 270 parties in lockstep): it must accept exactly if v = x*u; pairs include true ones, the neutral element on either or both sides, v plus or minus small multiples of the generator or of u, -v, products with parts of the secret, and pairs true for another key; each key is checked many times and must stay as it was; in further sessions a party opens values other than those it announced, made from what the others opened so that the final comparison holds, and everybody must refuse; distinct by session, pair and party",
	MinEval: 600,
	Run:     runC18,
}

func runC18(c *mon.Ctx) {
	es := coremon.EdgeScalars()
	eps := coremon.EdgePoints()
	for i, n := range []int{12, 270, 300}[:c.Pick(2, 3)] {
		largeKeys(c, n, i, true)
	}
	c.Parallel(c.Pick(40, 400), 10, func(i int) { cheatedCheck(c, c.Rng("cheat", i), i) })
	c.Parallel(c.Pick(90, 900), 10, func(i int) {
		r := c.Rng("session", i)
		n := []int{2, 3, 1, 4, 5, 6}[i%6]
		o := netOpts(r, n)
		o.MaxDelay /= 2
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		shares := make([]*big.Int, n)
		keys := make([]*arith.DKey, n)
		if i%4 == 3 {
			for p := range shares {
				shares[p] = coremon.RandScalar(r)
				k.genScript(p, shares[p])
			}
			var errs []error
			if keys, errs = k.ger("x"); !k.ok("GenExpReveal", errs) {
				return
			}
		} else {
			var pts []ref.Pt
			for p := range shares {
				shares[p] = coremon.RandScalar(r)
				if r.Intn(3) == 0 {
					shares[p] = modN(es[r.Intn(len(es))])
				}
			}
			if i%8 == 1 && n > 1 {
				// the secret is zero
				shares[n-1] = modN(new(big.Int).Neg(sum(shares[:n-1])))
			}
			for p := range shares {
				pts = append(pts, ref.Base(shares[p]))
			}
			for p := range shares {
				var ps []curve.Point
				for _, q := range pts {
					ps = append(ps, coremon.FromRef(k.g, q))
				}
				keys[p] = arith.NewDKey(arith.NewDSecret(uint16(p), "x", new(big.Int).Set(shares[p]), k.srv[p]), ps, k.g)
			}
		}
		x := sum(shares)
		pk := ref.Base(x)
		for p := range keys {
			if !k.pt(keys[p].PublicKey()).Eq(pk) {
				c.Violate("key", "%s\nparty %d: the public key is not that of the secret", k.desc, p)
				return
			}
		}
		checks := c.Pick(12, 20)
		if i < 3 {
			checks = c.Pick(150, 600)
		}
		for st := 0; st < checks; st++ {
			u := ref.Base(coremon.RandScalar(r))
			switch r.Intn(8) {
			case 0:
				u = eps[r.Intn(len(eps))]
			case 1:
				u = ref.Inf
			case 2:
				u = ref.G
			case 3:
				u = pk
			}
			v := u.Mul(x)
			dev := r.Intn(16)
			switch dev {
			case 0, 1, 2, 3, 4:
			case 5:
				v = v.Add(ref.G)
			case 6:
				v = v.Sub(ref.G)
			case 7:
				v = v.Add(u)
			case 8:
				v = v.Neg()
			case 9:
				v = ref.Inf
			case 10:
				v = u.Mul(shares[r.Intn(n)])
			case 11:
				v = u
			case 12:
				v = eps[r.Intn(len(eps))]
			case 13:
				v = pk
			case 14:
				v = v.Add(ref.Base(mul(bi(int64(r.Intn(5)-2)), bi(int64(1+r.Intn(300))))))
			case 15:
				v = ref.Base(coremon.RandScalar(r))
			}
			want := v.Eq(u.Mul(x))
			desc := fmt.Sprintf("check %d: u %v, v %v, secret %x (deviation %d)", st, u, v, x, dev)
			U, V := make([]curve.Point, n), make([]curve.Point, n)
			for p := range U {
				U[p], V[p] = coremon.FromRef(k.g, u), coremon.FromRef(k.g, v)
			}
			errs := k.All(func(p int) error { return arith.CheckDH(U[p], V[p], k.g, keys[p]) })
			if !k.noPanic("CheckDH", errs) {
				return
			}
			for p, e := range errs {
				c.Eval("%d/%d/%d", i, st, p)
				if (e == nil) != want {
					c.Violate("verdict", "%s\n%s\nparty %d: %v, but v = x*u is %v", k.desc, desc, p, e, want)
				}
				if !k.pt(keys[p].PublicKey()).Eq(pk) || keys[p].Label() != "x" {
					c.Violate("key", "%s\n%s\nparty %d: the key has changed", k.desc, desc, p)
				}
				if !coremon.Same(k.g, U[p], u) || !coremon.Same(k.g, V[p], v) {
					c.Violate("changed", "%s\n%s\nparty %d: the points have changed", k.desc, desc, p)
				}
			}
			if want {
				c.Count("true_triples", 1)
			} else {
				c.Count("false_triples", 1)
			}
			if c.Violated() {
				return
			}
			if st == 0 && i < 5 {
				c.Sample("%s: %s", k.desc, desc)
			}
		}
	})
}

// cheatedCheck lets a party open values of its choice instead of those it announced.
func cheatedCheck(c *mon.Ctx, r *rand.Rand, id int) {
	n := 2 + id%4
	k := newKit(c, r, simnet.Opts{N: n}, fmt.Sprintf("cheated check %d: %d parties", id, n))
	if k == nil {
		return
	}
	defer c.Begin("%s", k.desc)()
	defer k.Down()
	shares := make([]*big.Int, n)
	keys := make([]*arith.DKey, n)
	var pts []ref.Pt
	for p := range shares {
		shares[p] = coremon.RandScalar(r)
		pts = append(pts, ref.Base(shares[p]))
	}
	for p := range shares {
		var ps []curve.Point
		for _, q := range pts {
			ps = append(ps, coremon.FromRef(k.g, q))
		}
		keys[p] = arith.NewDKey(arith.NewDSecret(uint16(p), "x", new(big.Int).Set(shares[p]), k.srv[p]), ps, k.g)
	}
	x := sum(shares)
	pk := ref.Base(x)
	cheat := r.Intn(n)
	u := ref.Base(coremon.RandScalar(r))
	v := u.Mul(x)
	// how: both points are shifted; the sums are of the cheat's choice; only one of the points is changed
	how := id / 4 % 4
	if how > 0 {
		v = v.Add(ref.Base(coremon.RandScalar(r)))
	}
	swapped := r.Intn(4) == 0 // which of the points comes first
	e := coremon.RandScalar(r)
	desc := fmt.Sprintf("party %d cheats (way %d), u %v, v %v, secret %x", cheat, how, u, v, x)

	var mx sync.Mutex
	opened := map[int][2]ref.Pt{}
	reached := map[int]bool{}
	strange := false
	var test ref.Pt
	k.rewrite(func(rd int, f *simnet.Frame) []byte {
		if rd == 1 {
			a, rest, err := ref.DecodePt(f.Data)
			var b ref.Pt
			if err == nil {
				b, rest, err = ref.DecodePt(rest)
			}
			mx.Lock()
			if err != nil || len(rest) > 0 {
				strange = true
				mx.Unlock()
				return nil
			}
			if swapped {
				a, b = b, a
			}
			opened[int(f.From)] = [2]ref.Pt{a, b}
			mx.Unlock()
			if int(f.From) != cheat {
				return nil
			}
			// wait for the others
			var V, U ref.Pt
			for w := 0; ; w++ {
				mx.Lock()
				ready := len(opened) == n
				V, U = ref.Inf, ref.Inf
				for p, o := range opened {
					if p != cheat {
						V, U = V.Add(o[0]), U.Add(o[1])
					}
				}
				mx.Unlock()
				if ready {
					break
				}
				if w > 5000 {
					return nil
				}
				time.Sleep(time.Millisecond)
			}
			// V and U are the sums of the others
			sumU := ref.Base(e)
			switch how {
			case 0:
				V, U = a.Add(pk.Mul(e)), b.Add(ref.Base(e))
			case 1:
				V, U = sumU.Mul(x).Sub(V), sumU.Sub(U)
			case 2:
				V, U = U.Add(b).Mul(x).Sub(V), b
			case 3:
				sumU = V.Add(a).Mul(new(big.Int).ModInverse(x, ref.N))
				V, U = a, sumU.Sub(U)
			}
			last := sumU.Mul(shares[cheat])
			mx.Lock()
			reached[int(f.To)] = true
			test = last
			mx.Unlock()
			if swapped {
				V, U = U, V
			}
			return append(V.Encode(), U.Encode()...)
		}
		if rd == 2 && int(f.From) == cheat {
			t, rest, err := ref.DecodePt(f.Data)
			if err != nil || len(rest) > 0 {
				return nil
			}
			mx.Lock()
			defer mx.Unlock()
			switch how {
			case 0:
				t = t.Add(pts[cheat].Mul(e))
			case 1, 3:
				t = test
			}
			return t.Encode()
		}
		return nil
	})
	errs := k.AllCut(func(p int) error {
		return arith.CheckDH(coremon.FromRef(k.g, u), coremon.FromRef(k.g, v), k.g, keys[p])
	})
	k.SetOnFrame(nil)
	if !k.noPanic("CheckDH", errs) {
		return
	}
	if strange || len(reached) != n-1 {
		c.Count("cheats_that_failed", 1)
		return
	}
	for p := range reached {
		c.Eval("cheat/%d/%d", id, p)
		if errs[p] == nil {
			c.Violate("opening", "%s\n%s: it opens values that it has not announced, and party %d accepts", k.desc, desc, p)
		}
	}
	c.Count("cheated_checks", 1)
}
