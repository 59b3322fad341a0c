package coremon

import (
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C01 compares every group operation with an independent implementation of secp256k1.
var C01 = &mon.Monitor{
	Rule:    "one evaluation is one group operation (or constant) of the real code compared with a math/big reference: all pairs of edge points added and compared, every edge scalar times every edge point, random straight-line programs of Add/Neg/ScalarMult/ScalarBaseMult/Decode with equal, inverse and neutral operands made likely; distinct by operation and operands",
	Assume:  []string{"the reference in harness/ref (self-tested) is right", "group elements are read off through Group.Encode"},
	MinEval: 3000,
	Run:     runC01,
}

type elem struct {
	p    curve.Point
	want ref.Pt
	how  string
}

func runC01(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	chk := func(key string, got curve.Point, want ref.Pt, format string, a ...interface{}) bool {
		d := fmt.Sprintf(format, a...)
		c.Eval("%s", d)
		c.Count("compared_"+key, 1)
		if !Same(g, got, want) {
			c.Violate(key, "%s\n got %x\nwant %x", d, Enc(g, got), want.Encode())
			return false
		}
		return true
	}

	// constants, in fresh groups and after use
	for i := 0; i < 3; i++ {
		g2 := curve.NewSecp256k1Group()
		chk("gen", g2.Gen(), ref.G, "Gen #%d", i)
		chk("neutral", g2.Neutral(), ref.Inf, "Neutral #%d", i)
		c.Eval("order %d", i)
		if g2.Order().Cmp(ref.N) != 0 {
			c.Violate("order", "Order is %x", g2.Order())
		}
		g2.Neg(g2.ScalarMult(g2.Gen(), g2.Order()))
	}

	scalars := EdgeScalars()
	rng := c.Rng("scalars")
	for i := 0; i < c.Pick(40, 400); i++ {
		scalars = append(scalars, RandAnyScalar(rng))
	}
	for i := uint(0); i < 264; i++ {
		scalars = append(scalars, shl(i))
		if i < 256 {
			scalars = append(scalars, sub(ref.N, shl(i)))
		}
	}
	c.Parallel(len(scalars), 8, func(i int) {
		k := scalars[i]
		c.Guard("basemult", fmt.Sprintf("ScalarBaseMult(%x)", k), func() {
			chk("basemult", g.ScalarBaseMult(new(big.Int).Set(k)), ref.Base(k), "ScalarBaseMult(%x)", k)
			chk("mult", g.ScalarMult(g.Gen(), new(big.Int).Set(k)), ref.Base(k), "ScalarMult(G, %x)", k)
		})
	})

	// edge points, in several representations
	var pool []elem
	for _, p := range EdgePoints() {
		q := FromRef(g, p)
		if q == nil {
			c.Violate("decode", "the valid point %v is not decoded", p)
			continue
		}
		pool = append(pool, elem{q, p, p.String()})
	}
	c.Guard("pool", "making points", func() {
		n := ref.N
		pool = append(pool,
			elem{g.ScalarBaseMult(bi(0)), ref.Inf, "0*G"},
			elem{g.ScalarBaseMult(new(big.Int).Set(n)), ref.Inf, "N*G"},
			elem{g.Add(g.Gen(), g.Neg(g.Gen())), ref.Inf, "G-G"},
			elem{g.ScalarMult(g.Neutral(), bi(5)), ref.Inf, "5*0"},
			elem{g.Neg(g.Neutral()), ref.Inf, "-0"},
			elem{g.Neg(g.Neg(g.Gen())), ref.G, "--G"},
			elem{g.Add(g.Neutral(), g.Gen()), ref.G, "0+G"},
			elem{g.ScalarBaseMult(add(n, bi(1))), ref.G, "(N+1)G"},
			elem{g.ScalarBaseMult(sub(n, bi(1))), ref.G.Neg(), "(N-1)G"},
			elem{g.Add(g.ScalarBaseMult(bi(2)), g.ScalarBaseMult(bi(3))), ref.Base(bi(5)), "2G+3G"},
		)
		for i := 0; i < c.Pick(4, 12); i++ {
			k := RandScalar(rng)
			pool = append(pool, elem{g.ScalarBaseMult(new(big.Int).Set(k)), ref.Base(k), fmt.Sprintf("%x*G", k)})
			pool = append(pool, elem{g.ScalarBaseMult(sub(n, k)), ref.Base(k).Neg(), fmt.Sprintf("-%x*G", k)})
		}
	})
	for _, e := range pool {
		chk("pool", e.p, e.want, "element %s", e.how)
	}
	c.Parallel(len(pool)*len(pool), 8, func(i int) {
		a, b := pool[i/len(pool)], pool[i%len(pool)]
		c.Guard("add", fmt.Sprintf("Add(%s, %s)", a.how, b.how), func() {
			chk("add", g.Add(a.p, b.p), a.want.Add(b.want), "Add(%s, %s)", a.how, b.how)
			c.Eval("Equal(%s, %s)", a.how, b.how)
			if got, want := g.Equal(a.p, b.p), a.want.Eq(b.want); got != want {
				c.Violate("equal", "Equal(%s, %s) is %v", a.how, b.how, got)
			}
		})
	})
	for _, e := range pool {
		c.Guard("neg", "Neg "+e.how, func() { chk("neg", g.Neg(e.p), e.want.Neg(), "Neg(%s)", e.how) })
	}
	es := EdgeScalars()
	nk := len(es)
	if c.Quick {
		nk = 30
	}
	c.Parallel(len(pool), 8, func(i int) {
		r := c.Rng("mult", i)
		e := pool[i]
		for j := 0; j < nk; j++ {
			k := es[j]
			if c.Quick {
				k = es[r.Intn(len(es))]
			}
			if j%5 == 4 {
				k = RandAnyScalar(r)
			}
			c.Guard("mult", fmt.Sprintf("ScalarMult(%s, %x)", e.how, k), func() {
				chk("mult", g.ScalarMult(e.p, new(big.Int).Set(k)), e.want.Mul(k), "ScalarMult(%s, %x)", e.how, k)
			})
		}
	})

	// random programs over a common register file with known discrete logarithms
	c.Parallel(c.Pick(300, 6000), 8, func(i int) { program(c, g, c.Rng("program", i), i) })
}

type reg struct {
	p curve.Point
	k *big.Int
}

func program(c *mon.Ctx, g curve.Group, r *rand.Rand, id int) {
	regs := []reg{{g.Neutral(), bi(0)}, {g.Gen(), bi(1)}}
	trace := ""
	var sl slots
	pick := func() (reg, int) { i := r.Intn(len(regs)); return regs[i], i }
	c.Guard("program", fmt.Sprintf("program %d", id), func() {
		for step := 0; step < 60; step++ {
			a, ia := pick()
			var n reg
			var op string
			switch r.Intn(9) {
			case 0, 1:
				b, ib := pick()
				n, op = reg{g.Add(a.p, b.p), add(a.k, b.k)}, fmt.Sprintf("add r%d r%d", ia, ib)
			case 2:
				n, op = reg{g.Add(a.p, a.p), add(a.k, a.k)}, fmt.Sprintf("dbl r%d", ia)
			case 3:
				n, op = reg{g.Add(a.p, g.Neg(a.p)), bi(0)}, fmt.Sprintf("r%d - r%d", ia, ia)
			case 4:
				n, op = reg{g.Neg(a.p), new(big.Int).Neg(a.k)}, fmt.Sprintf("neg r%d", ia)
			case 5:
				k := RandAnyScalar(r)
				n, op = reg{g.ScalarMult(a.p, sl.cp(k)), mul(a.k, k)}, fmt.Sprintf("mul r%d %x", ia, k)
			case 6:
				k := RandAnyScalar(r)
				n, op = reg{g.ScalarBaseMult(sl.cp(k)), k}, fmt.Sprintf("base %x", k)
			case 7:
				q, err := g.Decode(newReader(Enc(g, a.p)))
				if err != nil {
					c.Violate("decode", "program %d: %s\ndecoding r%d: %v", id, trace, ia, err)
					return
				}
				n, op = reg{q, a.k}, fmt.Sprintf("codec r%d", ia)
			case 8:
				b, ib := pick()
				n, op = reg{g.Add(g.Add(a.p, b.p), g.Neg(b.p)), a.k}, fmt.Sprintf("r%d + r%d - r%d", ia, ib, ib)
			}
			n.k = new(big.Int).Mod(n.k, ref.N)
			trace += fmt.Sprintf("r%d = %s; ", len(regs), op)
			regs = append(regs, n)
			c.Eval("%s = %x", op, n.k)
			c.Count("program_steps", 1)
			if n.k.Sign() == 0 {
				c.Count("program_steps_neutral", 1)
			}
			if !Same(g, n.p, ref.Base(n.k)) {
				c.Violate("program", "program %d: %s\n got %x\nwant %x", id, trace, Enc(g, n.p), ref.Base(n.k).Encode())
				return
			}
		}
	})
	// all registers still hold, and comparisons agree with the logarithms
	for i := range regs {
		j := r.Intn(len(regs))
		c.Eval("cmp %x %x", regs[i].k, regs[j].k)
		if g.Equal(regs[i].p, regs[j].p) != (regs[i].k.Cmp(regs[j].k) == 0) {
			c.Violate("equal", "program %d: %s\nEqual(r%d, r%d)", id, trace, i, j)
		}
		if !g.Equal(regs[i].p, regs[i].p) {
			c.Violate("equal", "program %d: %s\nEqual(r%d, r%d) is false", id, trace, i, i)
		}
	}
	c.Sample("program %d: %s", id, trace)
}
