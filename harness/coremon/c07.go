package coremon

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C07 plays the forger.
var C07 = &mon.Monitor{
	Rule:    "one evaluation is one verification that has to fail: an honest proof against each other statement, its neighbours and other bases, an honest proof with every part altered or exchanged or bits of its encoding flipped, a proof made by the library from a wrong witness, or a forgery made without the witness (for every proper subset of the statement and announcement that the challenge might depend on, the remaining part is solved for after the challenge; responses first; other powers in refresh proofs), or a zero proof of a kind that the library leaves open; distinct by statement and proof",
	MinEval: 3000,
	Assume:  []string{"forgeries try challenges that hash a subset of the encodings of base, statement and announcement, in the order used and in two other orders"},
	Run:     runC07,
}

type accept func(f *commitment.ElGamalFactory, st []ref.Comm, p []byte) bool

// knowAccept decodes statement and proof into the given object and verifies.
func knowAccept(obj *zkpok.ZKEGKnow) accept {
	return func(f *commitment.ElGamalFactory, st []ref.Comm, p []byte) bool {
		x := CommFrom(st[0])
		return x != nil && obj.Decode(bytes.NewReader(p)) == nil && obj.Verify(f, x) == nil
	}
}

func refrAccept(obj *zkpok.ZKEGRefresh) accept {
	return func(f *commitment.ElGamalFactory, st []ref.Comm, p []byte) bool {
		x, y := CommFrom(st[0]), CommFrom(st[1])
		return x != nil && y != nil && obj.Decode(bytes.NewReader(p)) == nil && obj.Verify(f, x, y) == nil
	}
}

type forger struct {
	c     *mon.Ctx
	r     *rand.Rand
	b     *egBase
	tried int
}

func (w *forger) s() *big.Int { return RandScalar(w.r) }

// pt is a point of which nobody knows a discrete logarithm.
func (w *forger) pt() ref.Pt {
	for {
		if p, ok := ref.LiftX(RandBits(w.r, 255)); ok {
			return p
		}
	}
}

// must checks that a false or forged proof is rejected.
func (w *forger) must(acc accept, key, desc string, st []ref.Comm, p ref.Proof) {
	w.mustBytes(acc, w.b, key, desc, st, p.Encode())
}

func (w *forger) mustBytes(acc accept, b *egBase, key, desc string, st []ref.Comm, p []byte) {
	d := fmt.Sprintf("%s, base %s, statement %x, proof %x", desc, b.name, encAll(st), p)
	w.c.Eval("%s", d)
	w.c.Guard(key, d, func() {
		if acc(b.f, st, p) {
			w.c.Violate(key, "accepted: %s", d)
		}
	})
	w.c.Count("tried_"+key, 1)
}

func encAll(cs []ref.Comm) []byte {
	var b []byte
	for _, x := range cs {
		b = append(b, x.Encode()...)
	}
	return b
}

func modN(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.N) }
func inv(x *big.Int) *big.Int  { return new(big.Int).ModInverse(x, ref.N) }

// challenges hashes subsets of the pieces (nil ones are not known yet) in several orders.
func (w *forger) challenges(pieces []*ref.Pt, mask int) []*big.Int {
	enc := func(idx []int) []byte {
		var b []byte
		for _, i := range idx {
			if mask>>uint(i)&1 == 1 {
				b = append(b, pieces[i].Encode()...)
			}
		}
		return b
	}
	var fwd, ann []int
	for i := range pieces {
		fwd = append(fwd, i)
	}
	ann = append(append(ann, fwd[len(fwd)-2:]...), fwd[:len(fwd)-2]...)
	out := []*big.Int{ref.Hash(enc(fwd)), ref.Hash(enc(ann)), ref.Hash(append(w.b.h.Encode(), enc(fwd)...))}
	return out
}

func runC07(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	mk := c.Rng("bases")
	var bases []*egBase
	for i := 0; i < 4; i++ {
		bases = append(bases, newBase(g, fmt.Sprintf("random%d", i), RandScalar(mk)))
	}
	c.Parallel(c.Pick(8, 160), 8, func(i int) {
		w := &forger{c: c, r: c.Rng("forger", i), b: bases[i%len(bases)]}
		c.Guard("forge", fmt.Sprintf("forger %d", i), func() {
			w.forgeKnow()
			w.forgeRefresh()
		})
	})
	c.Parallel(c.Pick(12, 300), 8, func(i int) {
		w := &forger{c: c, r: c.Rng("alter", i), b: bases[i%len(bases)]}
		c.Guard("alter", fmt.Sprintf("alterations %d", i), func() { w.alter(bases, i) })
	})
	c.Parallel(c.Pick(6, 100), 6, func(i int) {
		w := &forger{c: c, r: c.Rng("matrix", i), b: bases[i%len(bases)]}
		c.Guard("matrix", fmt.Sprintf("matrix %d", i), func() { w.matrix(bases) })
	})
	c.Parallel(c.Pick(10, 200), 8, func(i int) {
		w := &forger{c: c, r: c.Rng("witness", i), b: bases[i%len(bases)]}
		c.Guard("witness", fmt.Sprintf("wrong witnesses %d", i), func() { w.wrongWitness() })
	})
	challengeSize(c, bases[0])
	stubs(c, bases[0])
}

// forgeKnow makes proofs of knowledge without knowing the value, for every part that the challenge
// might not depend on.
func (w *forger) forgeKnow() {
	acc := knowAccept(&zkpok.ZKEGKnow{})
	b, h := w.b, w.b.h
	base2 := func(v, r *big.Int) (ref.Pt, ref.Pt) { x := b.comm(v, r); return x.A, x.B }
	for mask := 0; mask < 16; mask++ {
		// announcement last, for any commitment at all
		if mask&12 == 0 {
			cm := ref.Comm{A: w.pt(), B: w.pt()}
			ps := []*ref.Pt{&cm.A, &cm.B, &ref.Inf, &ref.Inf}
			for _, e := range w.challenges(ps, mask) {
				z1, z2 := w.s(), w.s()
				a, d := base2(z2, z1)
				w.must(acc, "announcement-last", fmt.Sprintf("announcement after the challenge, hashing %04b", mask), []ref.Comm{cm},
					ref.Proof{Z1: z1, Z2: z2, XY: ref.Comm{A: a.Sub(cm.A.Mul(e)), B: d.Sub(cm.B.Mul(e))}})
			}
		}
		for miss := 0; miss < 4; miss++ {
			if mask>>uint(miss)&1 == 1 {
				continue
			}
			sigma, rho, r, v := w.s(), w.s(), w.s(), w.s()
			var cm, xy ref.Comm
			// what is known of the part that is not solved for
			if miss == 0 || miss == 2 { // first components
				cm.B = h.Mul(r).Add(ref.Base(v))
				xy.B = h.Mul(sigma).Add(ref.Base(rho))
				cm.A, xy.A = w.pt(), w.pt()
			} else {
				cm.A, xy.A = ref.Base(r), ref.Base(sigma)
				cm.B, xy.B = w.pt(), w.pt()
			}
			ps := []*ref.Pt{&cm.A, &cm.B, &xy.A, &xy.B}
			for _, e := range w.challenges(ps, mask) {
				z1 := modN(add(sigma, mul(e, r)))
				z2 := modN(add(rho, mul(e, v)))
				c2, x2 := cm, xy
				ei := inv(e)
				switch miss {
				case 0:
					c2.A = ref.Base(z1).Sub(xy.A).Mul(ei)
				case 1:
					c2.B = h.Mul(z1).Add(ref.Base(z2)).Sub(xy.B).Mul(ei)
				case 2:
					x2.A = ref.Base(z1).Sub(cm.A.Mul(e))
				case 3:
					x2.B = h.Mul(z1).Add(ref.Base(z2)).Sub(cm.B.Mul(e))
				}
				w.must(acc, "part-last", fmt.Sprintf("part %d after the challenge, hashing %04b", miss, mask), []ref.Comm{c2}, ref.Proof{Z1: z1, Z2: z2, XY: x2})
			}
		}
	}
	// degenerate proofs for commitments that are not neutral
	cm := ref.Comm{A: w.pt(), B: w.pt()}
	zero := bi(0)
	for _, st := range []ref.Comm{cm, {A: cm.A}, {B: cm.B}, b.comm(bi(1), zero), b.comm(zero, bi(1))} {
		for _, xy := range []ref.Comm{{}, st, {A: st.A.Neg(), B: st.B.Neg()}, {A: st.A}, {B: st.B}, {A: h, B: h}, {A: ref.G, B: h}} {
			for _, z := range [][2]*big.Int{{zero, zero}, {bi(1), zero}, {zero, bi(1)}, {bi(1), bi(1)}, {sub(ref.N, bi(1)), zero}} {
				w.must(acc, "degenerate", "degenerate knowledge proof", []ref.Comm{st}, ref.Proof{Z1: z[0], Z2: z[1], XY: xy})
			}
		}
	}
}

// forgeRefresh makes refresh proofs of false statements.
func (w *forger) forgeRefresh() {
	acc := refrAccept(&zkpok.ZKEGRefresh{})
	h := w.b.h
	c1 := ref.Comm{A: w.pt(), B: w.pt()}
	for mask := 0; mask < 64; mask++ {
		if mask&48 == 0 {
			// announcement last, for unrelated commitments
			c2 := ref.Comm{A: w.pt(), B: w.pt()}
			ps := []*ref.Pt{&c1.A, &c1.B, &c2.A, &c2.B, &ref.Inf, &ref.Inf}
			for _, e := range w.challenges(ps, mask) {
				z1 := w.s()
				w.must(acc, "announcement-last", fmt.Sprintf("refresh announcement after the challenge, hashing %06b", mask), []ref.Comm{c1, c2},
					ref.Proof{Z1: z1, Z2: e, XY: ref.Comm{A: ref.Base(z1).Add(c1.A.Sub(c2.A).Mul(e)), B: h.Mul(z1).Add(c1.B.Sub(c2.B).Mul(e))}})
			}
		}
		for miss := 0; miss < 6; miss++ {
			if mask>>uint(miss)&1 == 1 {
				continue
			}
			sigma, r := w.s(), w.s()
			a := c1
			c2, xy := ref.Comm{A: a.A.Add(ref.Base(r)), B: a.B.Add(h.Mul(r))}, ref.Comm{A: ref.Base(sigma), B: h.Mul(sigma)}
			// the component of the missing part is false
			if miss%2 == 0 {
				c2.A = w.pt()
				if miss < 4 {
					xy.A = w.pt()
				}
			} else {
				c2.B = w.pt()
				if miss < 4 {
					xy.B = w.pt()
				}
			}
			ps := []*ref.Pt{&a.A, &a.B, &c2.A, &c2.B, &xy.A, &xy.B}
			for _, e := range w.challenges(ps, mask) {
				z1 := modN(add(sigma, mul(e, r)))
				ei := inv(e)
				a, c2, xy := a, c2, xy
				gz, hz := ref.Base(z1), h.Mul(z1)
				switch miss {
				case 0:
					a.A = xy.A.Sub(gz).Mul(ei).Add(c2.A)
				case 1:
					a.B = xy.B.Sub(hz).Mul(ei).Add(c2.B)
				case 2:
					c2.A = gz.Sub(xy.A).Mul(ei).Add(a.A)
				case 3:
					c2.B = hz.Sub(xy.B).Mul(ei).Add(a.B)
				case 4:
					xy.A = gz.Add(a.A.Sub(c2.A).Mul(e))
				case 5:
					xy.B = hz.Add(a.B.Sub(c2.B).Mul(e))
				}
				w.must(acc, "part-last", fmt.Sprintf("refresh part %d after the challenge, hashing %06b", miss, mask), []ref.Comm{a, c2}, ref.Proof{Z1: z1, Z2: e, XY: xy})
			}
		}
	}
	// refreshed powers: z2 = tau + k*e
	for _, k := range []*big.Int{bi(0), bi(2), bi(3), sub(ref.N, bi(1)), ref.Lambda, w.s()} {
		for _, tau := range []*big.Int{bi(0), bi(1), w.s()} {
			sigma, r := w.s(), w.s()
			c2 := c1.Mul(k).Add(ref.Comm{A: ref.Base(r), B: h.Mul(r)})
			xy := ref.Comm{A: ref.Base(sigma), B: h.Mul(sigma)}.Add(c1.Mul(tau))
			e := ref.Hash(encAll([]ref.Comm{c1, c2, xy}))
			z1 := modN(add(sigma, mul(e, r)))
			for _, z2 := range []*big.Int{modN(add(tau, mul(e, k))), e} {
				w.must(acc, "power", fmt.Sprintf("refresh of the power %x, tau %x", k, tau), []ref.Comm{c1, c2}, ref.Proof{Z1: z1, Z2: z2, XY: xy})
			}
		}
	}
	// responses first, with any exponent
	for _, z2 := range []*big.Int{bi(0), bi(1), bi(2), sub(ref.N, bi(1)), w.s()} {
		c2 := ref.Comm{A: w.pt(), B: w.pt()}
		z1 := w.s()
		for _, xy := range []ref.Comm{{A: ref.Base(z1), B: h.Mul(z1)}, {A: ref.Base(z1).Add(c1.A.Sub(c2.A).Mul(z2)), B: h.Mul(z1).Add(c1.B.Sub(c2.B).Mul(z2))},
			{A: ref.Base(z1).Add(c1.A.Mul(z2)), B: h.Mul(z1).Add(c1.B.Mul(z2))}, {}} {
			w.must(acc, "responses-first", fmt.Sprintf("refresh with exponent %x", z2), []ref.Comm{c1, c2}, ref.Proof{Z1: z1, Z2: z2, XY: xy})
			w.must(acc, "responses-first", "refresh with response 0", []ref.Comm{c1, c2}, ref.Proof{Z1: bi(0), Z2: z2, XY: xy})
		}
	}
	// degenerate announcements with the right challenge, for false statements of every shape
	r := w.s()
	for _, c2 := range []ref.Comm{{A: w.pt(), B: w.pt()}, c1.Add(w.b.comm(bi(1), bi(0))), c1.Add(w.b.comm(bi(1), r)), {}, {A: c1.A}, {B: c1.B}, c1.Add(c1), {A: c1.A.Neg(), B: c1.B.Neg()},
		{A: c1.B, B: c1.A}, {A: c1.A.Add(ref.Base(r)), B: c1.B}, {A: c1.A, B: c1.B.Add(h.Mul(r))}} {
		for _, xy := range []ref.Comm{{}, c1, c2, c1.Sub(c2), c2.Sub(c1), {A: c1.A}, {B: c1.B}, {A: ref.G, B: h}} {
			e := ref.Hash(encAll([]ref.Comm{c1, c2, xy}))
			for _, z1 := range []*big.Int{bi(0), bi(1), e, modN(mul(e, r)), w.s()} {
				w.must(acc, "degenerate", "degenerate refresh proof", []ref.Comm{c1, c2}, ref.Proof{Z1: z1, Z2: e, XY: xy})
			}
		}
	}
}

type sample struct {
	know   bool
	v, r   *big.Int
	s      *big.Int
	st     []ref.Comm
	p      ref.Proof
	enc    []byte
	accept accept
}

// honestSample makes a true statement with its proof.
func (w *forger) honestSample(know bool) *sample {
	s := &sample{know: know, v: w.s(), r: w.s(), s: w.s()}
	f := w.b.f
	c1 := f.Create(cp(s.v), cp(s.r))
	if know {
		p, err := zkpok.NewZKEGKnow(f, c1, cp(s.v), cp(s.r))
		if err != nil {
			return nil
		}
		s.enc = knowBytes(p)
		s.st = []ref.Comm{w.b.comm(s.v, s.r)}
		s.accept = knowAccept(&zkpok.ZKEGKnow{})
	} else {
		c2 := f.Neutral().Compose(c1, f.Create(bi(0), cp(s.s)))
		p, err := zkpok.NewZKEGRefresh(f, c1, c2, cp(s.s))
		if err != nil {
			return nil
		}
		s.enc = refrBytes(p)
		s.st = []ref.Comm{w.b.comm(s.v, s.r), w.b.comm(s.v, add(s.r, s.s))}
		s.accept = refrAccept(&zkpok.ZKEGRefresh{})
	}
	p, rest, err := ref.DecodeProof(s.enc)
	if err != nil || len(rest) > 0 || !s.accept(f, s.st, s.enc) {
		return nil // completeness is another property
	}
	s.p = p
	return s
}

// alter changes honest proofs part by part and bit by bit, after the honest one was accepted.
func (w *forger) alter(bases []*egBase, i int) {
	s, o := w.honestSample(i%2 == 0), w.honestSample(i%2 == 0)
	if s == nil || o == nil {
		w.c.Count("no_honest_proof", 1)
		return
	}
	p, q := s.p, o.p
	eq := func(a, b *big.Int) bool { return modN(a).Cmp(modN(b)) == 0 }
	same := func(x ref.Proof) bool { return eq(x.Z1, p.Z1) && eq(x.Z2, p.Z2) && x.XY.Eq(p.XY) }
	must := func(desc string, x ref.Proof) {
		if same(x) {
			return
		}
		w.must(s.accept, "altered", desc, s.st, x)
	}
	zs := func(a, b *big.Int) []*big.Int {
		return []*big.Int{bi(0), bi(1), b, q.Z1, q.Z2, modN(add(a, bi(1))), modN(sub(a, bi(1))), modN(sub(bi(0), a)), modN(add(a, a)), modN(add(a, shl(255))), modN(add(a, shl(128))),
			new(big.Int).Xor(a, shl(uint(w.r.Intn(255)))), modN(mul(a, ref.Lambda)), w.s(), s.v, s.r, new(big.Int).Rsh(a, 8)}
	}
	for _, z := range zs(p.Z1, p.Z2) {
		must("other z1", ref.Proof{Z1: z, Z2: p.Z2, XY: p.XY})
	}
	for _, z := range zs(p.Z2, p.Z1) {
		must("other z2", ref.Proof{Z1: p.Z1, Z2: z, XY: p.XY})
	}
	must("z1 and z2 exchanged", ref.Proof{Z1: p.Z2, Z2: p.Z1, XY: p.XY})
	// changes that cancel in one component
	for _, d := range []*big.Int{bi(1), w.s()} {
		must("second component kept", ref.Proof{Z1: modN(add(p.Z1, d)), Z2: modN(sub(p.Z2, mul(d, w.b.k))), XY: p.XY})
		must("shifted with the announcement", ref.Proof{Z1: modN(add(p.Z1, d)), Z2: p.Z2, XY: p.XY.Add(w.b.comm(bi(0), d))})
		must("shifted with the announcement", ref.Proof{Z1: p.Z1, Z2: modN(add(p.Z2, d)), XY: p.XY.Add(w.b.comm(d, bi(0)))})
		must("shifted with the announcement", ref.Proof{Z1: modN(sub(p.Z1, d)), Z2: p.Z2, XY: p.XY.Add(w.b.comm(bi(0), d))})
	}
	pts := func(a, b ref.Pt) []ref.Pt {
		out := []ref.Pt{ref.Inf, b, a.Neg(), a.Add(ref.G), a.Sub(ref.G), a.Add(a), a.Mul(ref.Lambda), a.Add(w.b.h), q.XY.A, q.XY.B, ref.G, w.b.h, w.pt()}
		for _, t := range s.st {
			out = append(out, t.A, t.B)
		}
		return out
	}
	for _, x := range pts(p.XY.A, p.XY.B) {
		must("other first part of the announcement", ref.Proof{Z1: p.Z1, Z2: p.Z2, XY: ref.Comm{A: x, B: p.XY.B}})
	}
	for _, x := range pts(p.XY.B, p.XY.A) {
		must("other second part of the announcement", ref.Proof{Z1: p.Z1, Z2: p.Z2, XY: ref.Comm{A: p.XY.A, B: x}})
	}
	must("announcement exchanged", ref.Proof{Z1: p.Z1, Z2: p.Z2, XY: ref.Comm{A: p.XY.B, B: p.XY.A}})
	must("announcement negated", ref.Proof{Z1: p.Z1, Z2: p.Z2, XY: ref.Comm{A: p.XY.A.Neg(), B: p.XY.B.Neg()}})
	must("everything negated", ref.Proof{Z1: modN(sub(bi(0), p.Z1)), Z2: modN(sub(bi(0), p.Z2)), XY: ref.Comm{A: p.XY.A.Neg(), B: p.XY.B.Neg()}})
	must("everything from another proof", q)
	// bits
	for n := 0; n < 60; n++ {
		e := append([]byte{}, s.enc...)
		if n < 20 {
			e[w.r.Intn(8)] ^= 1 << uint(w.r.Intn(8))
		} else {
			e[8+w.r.Intn(len(e)-8)] ^= 1 << uint(w.r.Intn(8))
		}
		if x, rest, err := ref.DecodeProof(e); err == nil && len(rest) == 0 && same(x) {
			continue
		}
		w.mustBytes(s.accept, w.b, "altered", "bit flipped", s.st, e)
	}
	// the other kind of proof
	if s.know {
		w.mustBytes(refrAccept(&zkpok.ZKEGRefresh{}), w.b, "kind", "knowledge proof as refresh proof", []ref.Comm{s.st[0], s.st[0]}, s.enc)
	} else {
		w.mustBytes(knowAccept(&zkpok.ZKEGKnow{}), w.b, "kind", "refresh proof as knowledge proof", s.st[:1], s.enc)
		w.mustBytes(knowAccept(&zkpok.ZKEGKnow{}), w.b, "kind", "refresh proof as knowledge proof", s.st[1:], s.enc)
	}
	for _, b := range bases {
		if b != w.b {
			w.mustBytes(s.accept, b, "base", "other base", s.st, s.enc)
		}
	}
	g := w.b.f.Curve()
	for _, k := range []*big.Int{modN(sub(bi(0), w.b.k)), modN(add(w.b.k, bi(1))), bi(0), bi(1), modN(mul(w.b.k, ref.Lambda)), modN(mul(w.b.k, bi(2)))} {
		w.mustBytes(s.accept, newBase(g, fmt.Sprintf("%x*G", k), k), "base", "other base", s.st, s.enc)
	}
	if i < 4 {
		w.c.Sample("honest proof %x of %x, altered in every part", s.enc, encAll(s.st))
	}
}

// matrix verifies every proof against every statement.
func (w *forger) matrix(bases []*egBase) {
	var know, refr []*sample
	for i := 0; i < 6; i++ {
		if s := w.honestSample(true); s != nil {
			know = append(know, s)
		}
		if s := w.honestSample(false); s != nil {
			refr = append(refr, s)
		}
	}
	one := w.b.comm(bi(1), bi(0))
	fresh := w.b.comm(bi(0), w.s())
	near := func(x ref.Comm) []ref.Comm {
		return []ref.Comm{x.Add(one), x.Sub(one), x.Add(fresh), x.Add(w.b.comm(bi(0), bi(1))), x.Mul(sub(ref.N, bi(1))), x.Add(x), {A: x.B, B: x.A}, {A: x.A.Neg(), B: x.B}, {A: x.A, B: x.B.Neg()},
			{A: x.A}, {B: x.B}, {}, {A: x.A, B: x.A}, {A: x.B, B: x.B}, x.Mul(ref.Lambda), {A: x.A, B: x.B.Add(w.b.h)}}
	}
	for i, s := range know {
		for j, t := range know {
			if i != j {
				w.mustBytes(s.accept, w.b, "statement", "proof of another commitment", t.st, s.enc)
			}
		}
		for _, x := range near(s.st[0]) {
			if !x.Eq(s.st[0]) {
				w.mustBytes(s.accept, w.b, "statement", "proof of a neighbouring commitment", []ref.Comm{x}, s.enc)
			}
		}
	}
	for i, s := range refr {
		a, b := s.st[0], s.st[1]
		sts := [][]ref.Comm{{b, a}, {a, a}, {b, b}, {a.Add(one), b.Add(one)}, {a.Add(fresh), b.Add(fresh)}, {a.Mul(bi(2)), b.Mul(bi(2))}, {a.Mul(sub(ref.N, bi(1))), b.Mul(sub(ref.N, bi(1)))}, {{}, b.Sub(a)},
			{a.Sub(b), {}}, {{A: a.B, B: a.A}, {A: b.B, B: b.A}}}
		for j, t := range refr {
			if i != j {
				sts = append(sts, t.st, []ref.Comm{a, t.st[1]}, []ref.Comm{t.st[0], b})
			}
		}
		for _, x := range near(a) {
			sts = append(sts, []ref.Comm{x, b})
		}
		for _, x := range near(b) {
			sts = append(sts, []ref.Comm{a, x})
		}
		for _, st := range sts {
			if !st[0].Eq(a) || !st[1].Eq(b) {
				w.mustBytes(s.accept, w.b, "statement", "refresh proof of other commitments", st, s.enc)
			}
		}
	}
}

// wrongWitness lets the library itself prove false statements.
func (w *forger) wrongWitness() {
	f := w.b.f
	v, r, s := w.s(), w.s(), w.s()
	c1 := f.Create(cp(v), cp(r))
	k := w.b.k
	for _, x := range [][2]*big.Int{{modN(add(v, bi(1))), r}, {v, modN(add(r, bi(1)))}, {r, v}, {bi(0), r}, {v, bi(0)}, {bi(0), bi(0)}, {modN(sub(bi(0), v)), r}, {v, modN(sub(bi(0), r))},
		{modN(sub(v, k)), modN(add(r, bi(1)))}, {modN(add(v, k)), modN(sub(r, bi(1)))}, {w.s(), r}, {v, w.s()}, {modN(add(v, shl(200))), r}} {
		w.c.Eval("know %x %x as %x %x", v, r, x[0], x[1])
		w.c.Count("tried_witness", 1)
		p, err := zkpok.NewZKEGKnow(f, c1, cp(x[0]), cp(x[1]))
		if err != nil || p == nil {
			continue
		}
		if p.Verify(f, c1) == nil {
			w.c.Violate("witness", "the commitment to (%x, %x) under %s has an accepted proof made from (%x, %x)", v, r, w.b.name, x[0], x[1])
		}
	}
	type fs struct {
		c2   ref.Comm
		r    *big.Int
		desc string
	}
	a := w.b.comm(v, r)
	good := w.b.comm(v, add(r, s))
	X := w.pt()
	for _, x := range []fs{{good.Add(w.b.comm(bi(1), bi(0))), s, "value+1"}, {good.Sub(w.b.comm(bi(1), bi(0))), s, "value-1"}, {w.b.comm(w.s(), add(r, s)), s, "another value"}, {good, modN(add(s, bi(1))), "another randomness"},
		{good, bi(0), "randomness 0"}, {ref.Comm{A: X, B: good.B}, s, "first component off"}, {ref.Comm{A: good.A, B: X}, s, "second component off"}, {a.Mul(bi(2)).Add(w.b.comm(bi(0), s)), s, "double"},
		{a.Mul(sub(ref.N, bi(1))).Add(w.b.comm(bi(0), s)), s, "negative"}, {w.b.comm(bi(0), s), s, "value 0"}, {ref.Comm{A: good.B, B: good.A}, s, "exchanged"}, {ref.Comm{}, s, "neutral"}, {a, s, "not refreshed"},
		{w.b.comm(sub(v, k), add(add(r, s), bi(1))), s, "second component kept"}, {w.b.comm(v, sub(r, s)), s, "the other way"}, {good.Add(w.b.comm(shl(200), bi(0))), s, "value far off"}} {
		y := CommFrom(x.c2)
		if y == nil {
			continue
		}
		w.c.Eval("refresh %x by %x: %s", encAll([]ref.Comm{a, x.c2}), x.r, x.desc)
		w.c.Count("tried_witness", 1)
		p, err := zkpok.NewZKEGRefresh(f, c1, y, cp(x.r))
		if err != nil || p == nil {
			continue
		}
		if p.Verify(f, c1, y) == nil {
			w.c.Violate("witness", "an accepted refresh proof for a false statement (%s): from (%x, %x) under %s to %x with randomness %x", x.desc, v, r, w.b.name, x.c2.Encode(), x.r)
		}
	}
}

// challengeSize looks at the challenges of honest proofs: with nonces scripted to 1 the response
// is 1 + e*witness.
func challengeSize(c *mon.Ctx, b *egBase) {
	one := append(make([]byte, 31), 1)
	r := c.Rng("challenge")
	vary := [2]*big.Int{bi(0), bi(0)}
	first := [2]*big.Int{}
	n := [2]int{}
	for i := 0; i < 128; i++ {
		w := RandScalar(r)
		c1 := b.f.Create(cp(w), cp(w))
		for kind := 0; kind < 2; kind++ {
			rnd.S.Script(append(append([]byte{}, one...), one...))
			var enc []byte
			if kind == 0 {
				p, err := zkpok.NewZKEGKnow(b.f, c1, cp(w), cp(w))
				if err == nil {
					enc = knowBytes(p)
				}
			} else {
				p, err := zkpok.NewZKEGRefresh(b.f, c1, b.f.Neutral().Compose(c1, b.f.Create(bi(0), cp(w))), w)
				if err == nil {
					enc = refrBytes(p)
				}
			}
			rnd.S.Script(nil)
			p, _, err := ref.DecodeProof(enc)
			if err != nil || !p.XY.A.Eq(ref.G) {
				c.Count("challenge_not_seen", 1)
				continue
			}
			e := modN(mul(sub(p.Z1, bi(1)), inv(w)))
			c.Eval("challenge %d %x", kind, e)
			if first[kind] == nil {
				first[kind] = e
			}
			vary[kind].Or(vary[kind], new(big.Int).Xor(e, first[kind]))
			n[kind]++
		}
	}
	for kind := range vary {
		bits := 0
		for i := 0; i < vary[kind].BitLen(); i++ {
			bits += int(vary[kind].Bit(i))
		}
		c.Count(fmt.Sprintf("challenge_bits_kind_%d", kind), int64(bits))
		if n[kind] == 128 && bits < 100 {
			c.Violate("challenge", "the challenges of 128 proofs of kind %d differ in %d bits only: a proof can be forged by guessing", kind, bits)
		}
	}
}

// stubs asks the remaining kinds of proofs to verify nothing against a false statement.
func stubs(c *mon.Ctx, b *egBase) {
	x, y, z := b.f.Create(bi(1), bi(2)), b.f.Create(bi(3), bi(4)), b.f.Create(bi(5), bi(6))
	pt := b.f.Curve().ScalarBaseMult(bi(77))
	var pi curve.Point = pt
	fam := reflect.TypeOf(b.f)
	try := func(name string, obj interface{}) {
		m := reflect.ValueOf(obj).MethodByName("Verify")
		if !m.IsValid() {
			return
		}
		var args []reflect.Value
		cs := []*commitment.ElGamal{x, y, z}
		for i := 0; i < m.Type().NumIn(); i++ {
			t := m.Type().In(i)
			switch {
			case t == fam:
				args = append(args, reflect.ValueOf(b.f))
			case t == reflect.TypeOf(x):
				args = append(args, reflect.ValueOf(cs[i%3]))
			case t == reflect.TypeOf(bi(1)):
				args = append(args, reflect.ValueOf(bi(99)))
			case t == reflect.TypeOf(&pi):
				args = append(args, reflect.ValueOf(&pi))
			case t == reflect.TypeOf(&pi).Elem():
				args = append(args, reflect.ValueOf(pt))
			default:
				return
			}
		}
		c.Eval("stub %s", name)
		ok := false
		func() {
			defer func() { recover() }() // a real verification may refuse an empty proof in any way
			out := m.Call(args)
			if len(out) == 1 {
				switch v := out[0].Interface().(type) {
				case bool:
					ok = v
				case nil:
					ok = true
				}
			}
		}()
		if ok {
			c.Violate("stub-"+name, "an empty %s is accepted for a false statement", name)
		}
	}
	try("ZKEGRerand", &zkpok.ZKEGRerand{})
	try("ZKEGExp", &zkpok.ZKEGExp{})
	try("ZKEGReveal", &zkpok.ZKEGReveal{})
	try("ZKDLog", &zkpok.ZKDLog{})
	try("NoopZKproof", &zkpok.NoopZKproof{})
	// an empty object of the real kinds proves nothing either
	try("ZKEGKnow", &zkpok.ZKEGKnow{})
	try("ZKEGRefresh", &zkpok.ZKEGRefresh{})
}
