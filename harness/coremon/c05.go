package coremon

import (
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C05 checks commitments against pairs (value, randomness).
var C05 = &mon.Monitor{
	Rule:    "one evaluation is one commitment made by creating, composing, exponentiating, inverting or transporting (receivers fresh, reused or equal to operands, bases random and special) whose encoding is compared with the reference pair for the value and randomness it must have, or one equality or neutrality question compared with the answer modulo the order; distinct by operation and (base, value, randomness)",
	MinEval: 2000,
	Assume:  []string{"commitments are observed through Encode, Equal and IsNeutral"},
	Run:     runC05,
}

type egBase struct {
	name string
	k    *big.Int // h = k*G
	h    ref.Pt
	f    *commitment.ElGamalFactory
}

func newBase(g curve.Group, name string, k *big.Int) *egBase {
	k = new(big.Int).Mod(k, ref.N)
	h := ref.Base(k)
	return &egBase{name, k, h, commitment.NewElGamalFactory(FromRef(g, h))}
}

// comm is the expected commitment, by two multiplications of the generator.
func (b *egBase) comm(v, r *big.Int) ref.Comm {
	return ref.Comm{A: ref.Base(r), B: ref.Base(add(mul(r, b.k), v))}
}

type vr struct {
	p    *commitment.ElGamal
	v, r *big.Int
	b    *egBase
}

func runC05(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	mk := c.Rng("bases")
	bases := []*egBase{newBase(g, "random1", RandScalar(mk)), newBase(g, "random2", RandScalar(mk)), newBase(g, "G", bi(1)), newBase(g, "-G", bi(-1)),
		newBase(g, "2G", bi(2)), newBase(g, "lambda", ref.Lambda), newBase(g, "neutral", bi(0))}
	es := EdgeScalars()
	// every pair of edge scalars
	pairs := len(es) * len(es)
	c.Parallel(c.Pick(pairs/2, pairs*len(bases)), 8, func(i int) {
		j := i
		if c.Quick {
			j = i*2 + i%2
		}
		b := bases[(i/pairs+i)%len(bases)]
		v, r := es[j%len(es)], es[(j/len(es))%len(es)]
		c.Guard("create", fmt.Sprintf("create %s %x %x", b.name, v, r), func() {
			checkCreate(c, b, v, r)
		})
	})
	// neutrality and equality, exactly
	for _, b := range bases {
		b := b
		r := c.Rng("neutral" + b.name)
		c.Guard("neutral", "neutral elements of base "+b.name, func() { neutrality(c, b, r) })
	}
	// programs
	n := c.Pick(250, 6000)
	c.Parallel(n, 8, func(i int) {
		r := c.Rng("program", i)
		c.Guard("program", fmt.Sprintf("program %d", i), func() { egProgram(c, bases, r, i) })
	})
}

func checkCreate(c *mon.Ctx, b *egBase, v, r *big.Int) {
	c.Eval("create %s %x %x", b.name, v, r)
	c.Count("created", 1)
	got := EncComm(b.f.Create(cp(v), cp(r)))
	if want := b.comm(v, r).Encode(); string(got) != string(want) {
		c.Violate("create", "commitment under %s to %x with %x is %x, not %x", b.name, v, r, got, want)
	}
}

func neutrality(c *mon.Ctx, b *egBase, rr *rand.Rand) {
	zero := func(x *big.Int) bool { return new(big.Int).Mod(x, ref.N).Sign() == 0 }
	ask := func(v, r *big.Int, p *commitment.ElGamal, how string) {
		c.Eval("neutral %s %s %x %x", b.name, how, v, r)
		want := zero(v) && zero(r)
		if got := b.f.IsNeutral(p); got != want {
			c.Violate("neutral", "IsNeutral of %s of (%x, %x) under %s is %v", how, v, r, b.name, got)
		}
		if got := p.Equal(p, b.f.Neutral()); got != want {
			c.Violate("equal", "%s of (%x, %x) under %s equals neutral: %v", how, v, r, b.name, got)
		}
	}
	for _, v := range []*big.Int{bi(0), bi(1), ref.N, sub(ref.N, bi(1)), mul(ref.N, bi(5)), RandScalar(rr), b.k} {
		for _, r := range []*big.Int{bi(0), bi(1), ref.N, sub(ref.N, bi(1)), mul(ref.N, bi(3)), RandScalar(rr)} {
			p := b.f.Create(cp(v), cp(r))
			ask(v, r, p, "create")
			// second part neutral although the first is not, and the reverse
			w := new(big.Int).Mod(sub(bi(0), mul(b.k, r)), ref.N)
			ask(w, r, b.f.Create(cp(w), cp(r)), "second part neutral")
			q := b.f.Neutral()
			q.Inverse(p)
			ask(new(big.Int).Neg(v), new(big.Int).Neg(r), q, "inverse")
			q.Compose(q, p)
			ask(bi(0), bi(0), q, "own inverse")
			ask(bi(0), bi(0), b.f.Neutral().Exp(p, bi(0)), "power 0")
			ask(bi(0), bi(0), b.f.Neutral().Exp(p, cp(ref.N)), "power of the order")
			if x := CommFrom(b.comm(v, r)); x != nil {
				ask(v, r, x, "decoded")
			}
			// what is neutral stays neutral whatever was done to earlier neutral elements
			m := b.f.Neutral()
			m.Compose(m, p)
			m.Exp(m, bi(3))
			ask(bi(0), bi(0), b.f.Neutral(), "fresh neutral")
			ask(mul(v, bi(3)), mul(r, bi(3)), m, "changed neutral")
		}
	}
	// equality: all pairs of commitments whose values and randomness are easily confused
	v, r := RandScalar(rr), RandScalar(rr)
	n1 := sub(ref.N, bi(1))
	vals := [][2]*big.Int{{v, r}, {add(v, ref.N), r}, {v, add(r, ref.N)}, {add(v, bi(1)), r}, {v, add(r, bi(1))}, {r, v}, {mul(v, n1), r}, {v, mul(r, n1)}, {mul(v, n1), mul(r, n1)},
		{sub(v, mul(b.k, r)), r}, {add(v, b.k), r}, {sub(v, b.k), add(r, bi(1))}, {bi(0), r}, {v, bi(0)}, {mul(v, ref.Lambda), mul(r, ref.Lambda)}, {mul(v, bi(2)), mul(r, bi(2))},
		{v, mul(r, ref.Lambda)}, {bi(0), bi(0)}, {add(mul(b.k, r), mul(v, bi(2))), mul(r, n1)}, {sub(bi(0), add(v, mul(bi(2), mul(b.k, r)))), r}}
	var ps []*commitment.ElGamal
	for i := range vals {
		x := &vals[i]
		for k := range x {
			x[k] = new(big.Int).Mod(x[k], ref.N)
		}
	}
	for i, x := range vals {
		if i%2 == 0 {
			ps = append(ps, b.f.Create(cp(x[0]), cp(x[1])))
		} else {
			ps = append(ps, CommFrom(b.comm(x[0], x[1])))
		}
	}
	recv := b.f.Neutral()
	for i := range ps {
		for j := range ps {
			want := vals[i][0].Cmp(vals[j][0]) == 0 && vals[i][1].Cmp(vals[j][1]) == 0
			c.Eval("equal %s %d %d %x %x", b.name, i, j, v, r)
			if want {
				c.Count("equal_pairs", 1)
			} else {
				c.Count("different_pairs", 1)
			}
			if ps[i] == nil || ps[j] == nil {
				c.Violate("equal", "a commitment to (%x, %x) under %s cannot be decoded", vals[j][0], vals[j][1], b.name)
				return
			}
			if got := recv.Equal(ps[i], ps[j]); got != want {
				c.Violate("equal", "under %s, (%x, %x) equals (%x, %x): %v", b.name, vals[i][0], vals[i][1], vals[j][0], vals[j][1], got)
			}
		}
	}
}

func egProgram(c *mon.Ctx, bases []*egBase, r *rand.Rand, id int) {
	b := bases[r.Intn(len(bases))]
	if r.Intn(2) == 0 {
		b = bases[r.Intn(2)]
	}
	other := commitment.NewElGamalFactory(FromRef(b.f.Curve(), b.h))
	var regs []*vr
	var sl slots
	put := func(p *commitment.ElGamal, v, rr *big.Int) {
		regs = append(regs, &vr{p, new(big.Int).Mod(v, ref.N), new(big.Int).Mod(rr, ref.N), b})
	}
	for i := 0; i < 3; i++ {
		v, rr := RandAnyScalar(r), RandAnyScalar(r)
		f := b.f
		if i == 1 {
			f = other
		}
		put(f.Create(sl.cp(v), sl.cp(rr)), v, rr)
	}
	put(b.f.Neutral(), bi(0), bi(0))
	trace := fmt.Sprintf("base %s;", b.name)
	for s := 0; s < 14; s++ {
		x, y := regs[r.Intn(len(regs))], regs[r.Intn(len(regs))]
		// the receiver: a fresh one, another register, or an operand
		var z *vr
		switch r.Intn(4) {
		case 0:
			z = x
		case 1:
			z = y
		case 2:
			z = regs[r.Intn(len(regs))]
		default:
			z = &vr{p: b.f.Neutral(), b: b}
			regs = append(regs, z)
		}
		var nv, nr *big.Int
		var res *commitment.ElGamal
		op := r.Intn(5)
		k := RandAnyScalar(r)
		switch op {
		case 0, 1:
			nv, nr = add(x.v, y.v), add(x.r, y.r)
			res = z.p.Compose(x.p, y.p)
			trace += fmt.Sprintf(" compose(%x,%x)", x.v, y.v)
		case 2:
			nv, nr = mul(x.v, k), mul(x.r, k)
			res = z.p.Exp(x.p, sl.cp(k))
			trace += fmt.Sprintf(" exp(%x,%x)", x.v, k)
		case 3:
			nv, nr = sub(bi(0), x.v), sub(bi(0), x.r)
			res = z.p.Inverse(x.p)
			trace += fmt.Sprintf(" inverse(%x)", x.v)
		case 4:
			nv, nr = x.v, x.r
			e := EncComm(x.p)
			if err := z.p.Decode(newReader(e)); err != nil {
				c.Violate("transport", "%s: its own encoding %x does not decode: %v", trace, e, err)
				return
			}
			res = z.p
		}
		z.v, z.r = new(big.Int).Mod(nv, ref.N), new(big.Int).Mod(nr, ref.N)
		want := b.comm(z.v, z.r)
		c.Eval("op %d base %s %x %x", op, b.name, z.v, z.r)
		c.Count("program_steps", 1)
		if got := EncComm(z.p); string(got) != string(want.Encode()) {
			c.Violate("homomorphic", "program %d: %s\nthe receiver holds %x, not the commitment to (%x, %x)", id, trace, got, z.v, z.r)
			return
		}
		if res == nil || string(EncComm(res)) != string(want.Encode()) {
			c.Violate("homomorphic", "program %d: %s\nthe returned commitment is not the one in the receiver", id, trace)
			return
		}
		q := regs[r.Intn(len(regs))]
		same := q.v.Cmp(z.v) == 0 && q.r.Cmp(z.r) == 0
		if x.p.Equal(z.p, q.p) != same || z.p.Equal(q.p, z.p) != same {
			c.Violate("equal", "program %d: %s\n(%x, %x) equals (%x, %x): %v", id, trace, z.v, z.r, q.v, q.r, !same)
		}
		if b.f.IsNeutral(z.p) != (z.v.Sign() == 0 && z.r.Sign() == 0) {
			c.Violate("neutral", "program %d: %s\nneutrality of (%x, %x)", id, trace, z.v, z.r)
		}
	}
	if id < 4 {
		c.Sample("%s", trace)
	}
	// the same value reached in another way is equal, and what was there first is still right
	for _, x := range regs {
		if w := b.f.Create(sl.cp(x.v), sl.cp(x.r)); !w.Equal(w, x.p) {
			c.Violate("equal", "program %d: %s\nwhat should be (%x, %x) does not equal a new commitment to it", id, trace, x.v, x.r)
		}
	}
}
