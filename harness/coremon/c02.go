package coremon

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sync"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C02 watches that operations leave their operands and earlier results alone.
var C02 = &mon.Monitor{
	Rule:    "one evaluation is one real operation on points, scalars, commitments, proofs or hash inputs after which every object made so far that the operation may not change (operands, scalars of any length, all earlier results, constants) is compared with its snapshot, and whose result is compared with the reference, including receivers that are operands; in the race-detector build, many goroutines share all objects and their results are compared with sequential ones; distinct by operation and operands",
	Assume:  []string{"objects are observed through Encode and big.Int.Cmp", "the race detector sees the races of the interleavings that ran"},
	MinEval: 1000,
	Run:     runC02,
	RaceRun: raceC02,
}

type snap struct {
	name string
	now  func() []byte
	was  []byte
}

type world struct {
	c     *mon.Ctx
	g     curve.Group
	fct   *commitment.ElGamalFactory
	h     ref.Pt
	snaps []*snap
	trace []string
	pts   []reg
	ints  []*big.Int
	comms []commReg
	know  []knowReg
	refr  []refrReg
	// scalars the code handed out
	foreign map[*big.Int]bool
}

type commReg struct {
	p    *commitment.ElGamal
	v, r *big.Int
	s    *snap
}
type knowReg struct {
	p *zkpok.ZKEGKnow
	c commReg
	s *snap
}
type refrReg struct {
	p      *zkpok.ZKEGRefresh
	c1, c2 commReg
	s      *snap
}

func (w *world) watch(name string, now func() []byte) *snap {
	s := &snap{name, now, now()}
	w.snaps = append(w.snaps, s)
	return s
}

func (w *world) addPt(p curve.Point, k *big.Int) {
	k = new(big.Int).Mod(k, ref.N)
	w.pts = append(w.pts, reg{p, k})
	w.watch(fmt.Sprintf("point p%d", len(w.pts)-1), func() []byte { return Enc(w.g, p) })
	if !Same(w.g, p, ref.Base(k)) {
		w.c.Violate("value", "%v\nlast result is %x, want %x", w.trace, Enc(w.g, p), ref.Base(k).Encode())
	}
}

func (w *world) addInt(k *big.Int) *big.Int {
	w.ints = append(w.ints, k)
	w.watch(fmt.Sprintf("scalar k%d", len(w.ints)-1), func() []byte { return []byte(k.Text(16)) })
	return k
}

func (w *world) addComm(p *commitment.ElGamal, v, r *big.Int) commReg {
	cr := commReg{p, new(big.Int).Mod(v, ref.N), new(big.Int).Mod(r, ref.N), nil}
	cr.s = w.watch(fmt.Sprintf("commitment c%d", len(w.comms)), func() []byte { return EncComm(p) })
	w.comms = append(w.comms, cr)
	w.checkComm(len(w.comms) - 1)
	return cr
}

func (w *world) checkComm(i int) {
	cr := w.comms[i]
	if want := ref.Commit(w.h, cr.v, cr.r).Encode(); !bytes.Equal(want, EncComm(cr.p)) {
		w.c.Violate("value", "%v\nc%d is %x, want %x", w.trace, i, EncComm(cr.p), want)
	}
}

func (w *world) verify() bool {
	for _, s := range w.snaps {
		if now := s.now(); !bytes.Equal(now, s.was) {
			w.c.Violate("changed", "%v\n%s changed\nfrom %x\nto   %x", w.trace, s.name, s.was, now)
			s.was = now
			return false
		}
	}
	return true
}

func knowBytes(p *zkpok.ZKEGKnow) []byte {
	b := &bytes.Buffer{}
	if err := p.Encode(b); err != nil {
		return []byte("error: " + err.Error())
	}
	return b.Bytes()
}
func refrBytes(p *zkpok.ZKEGRefresh) []byte {
	b := &bytes.Buffer{}
	if err := p.Encode(b); err != nil {
		return []byte("error: " + err.Error())
	}
	return b.Bytes()
}

func newWorld(c *mon.Ctx, r *rand.Rand) *world {
	w := &world{c: c, g: curve.NewSecp256k1Group(), foreign: map[*big.Int]bool{}}
	w.watch("order", func() []byte { return []byte(w.g.Order().Text(16)) })
	w.watch("order of a new group", func() []byte { return []byte(curve.NewSecp256k1Group().Order().Text(16)) })
	w.watch("hash modulus", func() []byte { return []byte(pkg.Q.Text(16)) })
	w.watch("generator", func() []byte { return Enc(w.g, w.g.Gen()) })
	w.watch("neutral", func() []byte { return Enc(w.g, w.g.Neutral()) })
	kh := RandScalar(r)
	hp := w.g.ScalarBaseMult(new(big.Int).Set(kh))
	w.h = ref.Base(kh)
	w.addPt(hp, kh)
	w.fct = commitment.NewElGamalFactory(hp)
	w.watch("factory", func() []byte {
		f := w.fct.Neutral()
		return append(EncComm(f), []byte(fmt.Sprint(w.fct.IsNeutral(f), w.fct.Curve().Order().Text(16)))...)
	})
	w.addPt(w.g.Gen(), bi(1))
	w.addPt(w.g.Neutral(), bi(0))
	for i := 0; i < 4; i++ {
		w.addInt(RandAnyScalar(r))
	}
	w.foreign[w.addInt(w.g.Order())] = true
	w.foreign[w.addInt(pkg.Q)] = true
	w.addComm(w.fct.Create(bi(0), bi(0)), bi(0), bi(0))
	w.addComm(w.fct.Neutral(), bi(0), bi(0))
	v, rr := RandAnyScalar(r), RandAnyScalar(r)
	w.addComm(w.fct.Create(w.addInt(v), w.addInt(rr)), v, rr)
	return w
}

func runC02(c *mon.Ctx) {
	c.Parallel(c.Pick(200, 3000), 8, func(i int) {
		r := c.Rng("world", i)
		c.Guard("world", fmt.Sprintf("world %d", i), func() {
			w := newWorld(c, r)
			for step := 0; step < 40; step++ {
				w.step(r)
				c.Eval("%d %s", i, w.trace[len(w.trace)-1])
				c.Count("snapshots_compared", int64(len(w.snaps)))
				if !w.verify() {
					return
				}
			}
			c.Sample("world %d: %v", i, w.trace)
		})
	})
}

func (w *world) step(r *rand.Rand) {
	say := func(format string, a ...interface{}) { w.trace = append(w.trace, fmt.Sprintf(format, a...)) }
	pi := func() int { return r.Intn(len(w.pts)) }
	ki := func() int { return r.Intn(len(w.ints)) }
	ci := func() int { return r.Intn(len(w.comms)) }
	if r.Intn(4) == 0 {
		w.addInt(RandAnyScalar(r))
	}
	g := w.g
	op := r.Intn(20)
	w.c.Count([]string{"add", "neg", "scalar_mult", "base_mult", "point_codec", "create", "compose", "compose", "exp", "inverse", "receiver_is_operand", "receiver_is_operand", "comparisons", "know_proofs", "refresh_proofs", "verify_all", "hashes", "decode_over_copy", "decode_proof_over_copy", "caller_changes_scalar"}[op], 1)
	switch op {
	case 0:
		a, b := pi(), pi()
		say("p%d = Add(p%d, p%d)", len(w.pts), a, b)
		w.addPt(g.Add(w.pts[a].p, w.pts[b].p), add(w.pts[a].k, w.pts[b].k))
	case 1:
		a := pi()
		say("p%d = Neg(p%d)", len(w.pts), a)
		w.addPt(g.Neg(w.pts[a].p), new(big.Int).Neg(w.pts[a].k))
	case 2:
		a, k := pi(), ki()
		say("p%d = ScalarMult(p%d, k%d=%x)", len(w.pts), a, k, w.ints[k])
		w.addPt(g.ScalarMult(w.pts[a].p, w.ints[k]), mul(w.pts[a].k, w.ints[k]))
	case 3:
		k := ki()
		say("p%d = ScalarBaseMult(k%d=%x)", len(w.pts), k, w.ints[k])
		w.addPt(g.ScalarBaseMult(w.ints[k]), w.ints[k])
	case 4:
		a := pi()
		b := Enc(g, w.pts[a].p)
		say("p%d = codec(p%d)", len(w.pts), a)
		if p, err := g.Decode(newReader(b)); err != nil {
			w.c.Violate("decode", "%v: %v", w.trace, err)
		} else {
			// the buffer the point was read from belongs to the caller
			w.addPt(p, w.pts[a].k)
			for i := range b {
				b[i] ^= 0xff
			}
		}
	case 5:
		k, l := ki(), ki()
		say("c%d = Create(k%d=%x, k%d=%x)", len(w.comms), k, w.ints[k], l, w.ints[l])
		w.addComm(w.fct.Create(w.ints[k], w.ints[l]), w.ints[k], w.ints[l])
	case 6, 7:
		// fresh receiver
		a, b := ci(), ci()
		x := w.fct.Neutral()
		say("c%d = fresh.Compose(c%d, c%d)", len(w.comms), a, b)
		ca, cb := w.comms[a], w.comms[b]
		w.addComm(x.Compose(ca.p, cb.p), add(ca.v, cb.v), add(ca.r, cb.r))
		if !bytes.Equal(EncComm(x), EncComm(w.comms[len(w.comms)-1].p)) {
			w.c.Violate("receiver", "%v\nthe receiver does not hold the result", w.trace)
		}
	case 8:
		a, k := ci(), ki()
		x := w.fct.Neutral()
		say("c%d = fresh.Exp(c%d, k%d=%x)", len(w.comms), a, k, w.ints[k])
		w.addComm(x.Exp(w.comms[a].p, w.ints[k]), mul(w.comms[a].v, w.ints[k]), mul(w.comms[a].r, w.ints[k]))
	case 9:
		a := ci()
		x := w.fct.Neutral()
		say("c%d = fresh.Inverse(c%d)", len(w.comms), a)
		w.addComm(x.Inverse(w.comms[a].p), new(big.Int).Neg(w.comms[a].v), new(big.Int).Neg(w.comms[a].r))
	case 10, 11:
		// the receiver is an operand: it alone may change
		a := ci()
		x := &w.comms[a]
		var v, rr *big.Int
		switch r.Intn(5) {
		case 0:
			b := ci()
			say("c%d.Compose(c%d, c%d)", a, a, b)
			v, rr = add(x.v, w.comms[b].v), add(x.r, w.comms[b].r)
			x.p.Compose(x.p, w.comms[b].p)
		case 1:
			b := ci()
			say("c%d.Compose(c%d, c%d)", a, b, a)
			v, rr = add(x.v, w.comms[b].v), add(x.r, w.comms[b].r)
			x.p.Compose(w.comms[b].p, x.p)
		case 2:
			say("c%d.Compose(c%d, c%d)", a, a, a)
			v, rr = add(x.v, x.v), add(x.r, x.r)
			x.p.Compose(x.p, x.p)
		case 3:
			k := ki()
			say("c%d.Exp(c%d, k%d=%x)", a, a, k, w.ints[k])
			v, rr = mul(x.v, w.ints[k]), mul(x.r, w.ints[k])
			x.p.Exp(x.p, w.ints[k])
		case 4:
			say("c%d.Inverse(c%d)", a, a)
			v, rr = new(big.Int).Neg(x.v), new(big.Int).Neg(x.r)
			x.p.Inverse(x.p)
		}
		x.v, x.r = v.Mod(v, ref.N), rr.Mod(rr, ref.N)
		x.s.was = x.s.now()
		w.checkComm(a)
	case 12:
		// comparing and encoding are pure as well
		a, b, p, q := ci(), ci(), pi(), pi()
		say("compare c%d c%d, p%d p%d", a, b, p, q)
		w.comms[a].p.Equal(w.comms[a].p, w.comms[b].p)
		w.fct.IsNeutral(w.comms[b].p)
		g.Equal(w.pts[p].p, w.pts[q].p)
	case 13:
		a := ci()
		x := w.comms[a]
		v, rr := w.addInt(new(big.Int).Set(x.v)), w.addInt(new(big.Int).Set(x.r))
		if r.Intn(2) == 0 {
			v.Add(v, ref.N)
			w.snaps[len(w.snaps)-2].was = w.snaps[len(w.snaps)-2].now()
		}
		say("know%d = NewZKEGKnow(c%d, %x, %x)", len(w.know), a, v, rr)
		p, err := zkpok.NewZKEGKnow(w.fct, x.p, v, rr)
		if err != nil {
			w.c.Violate("know", "%v: %v", w.trace, err)
			return
		}
		// the commitment may later change as a receiver, so the statement is copied
		x.p = CommFrom(ref.Commit(w.h, x.v, x.r))
		s := w.watch(fmt.Sprintf("know%d", len(w.know)), func() []byte { return knowBytes(p) })
		w.watch(fmt.Sprintf("statement of know%d", len(w.know)), func() []byte { return EncComm(x.p) })
		w.know = append(w.know, knowReg{p, x, s})
	case 14:
		a := ci()
		x := w.comms[a]
		k := RandScalar(r)
		kk := w.addInt(new(big.Int).Set(k))
		c1 := CommFrom(ref.Commit(w.h, x.v, x.r))
		c2 := CommFrom(ref.Commit(w.h, x.v, add(x.r, k)))
		i := len(w.refr)
		w.watch(fmt.Sprintf("c1 of refresh%d", i), func() []byte { return EncComm(c1) })
		w.watch(fmt.Sprintf("c2 of refresh%d", i), func() []byte { return EncComm(c2) })
		say("refresh%d = NewZKEGRefresh(c%d, +%x)", i, a, k)
		p, err := zkpok.NewZKEGRefresh(w.fct, c1, c2, kk)
		if err != nil {
			w.c.Violate("refresh", "%v: %v", w.trace, err)
			return
		}
		s := w.watch(fmt.Sprintf("refresh%d", i), func() []byte { return refrBytes(p) })
		w.refr = append(w.refr, refrReg{p, commReg{p: c1}, commReg{p: c2}, s})
	case 15:
		say("verify all proofs")
		for i, k := range w.know {
			if err := k.p.Verify(w.fct, k.c.p); err != nil {
				w.c.Violate("verify", "%v\nknow%d: %v", w.trace, i, err)
			}
			k.p.Verify(w.fct, w.comms[ci()].p)
		}
		for i, k := range w.refr {
			if err := k.p.Verify(w.fct, k.c1.p, k.c2.p); err != nil {
				w.c.Violate("verify", "%v\nrefresh%d: %v", w.trace, i, err)
			}
			k.p.Verify(w.fct, k.c2.p, w.comms[ci()].p)
		}
	case 16:
		// the bytes beyond the end belong to the caller as well
		all := make([]byte, 300)
		r.Read(all)
		allWas := append([]byte{}, all...)
		b := all[20 : 20+r.Intn(200)]
		was := append([]byte{}, b...)
		say("hash %x", b)
		x := pkg.HashToBigInt(b)
		if !bytes.Equal(all, allWas) {
			w.c.Violate("hash", "the hashed bytes or those around them changed: %x to %x", allWas, all)
		}
		if x.Cmp(ref.Hash(was)) != 0 {
			w.c.Violate("value", "%v\nhash is %x", w.trace, x)
		}
		w.foreign[w.addInt(x)] = true
	case 17:
		// decoding into an object that has a copy
		a := ci()
		say("decode over a copy of c%d", a)
		x := w.comms[a]
		cp := *x.p
		v, rr := RandScalar(r), RandScalar(r)
		if err := cp.Decode(newReader(ref.Commit(w.h, v, rr).Encode())); err != nil {
			w.c.Violate("decode", "%v: %v", w.trace, err)
			return
		}
		w.addComm(&cp, v, rr)
		cp2 := *x.p
		cp2.Compose(&cp2, &cp)
		w.addComm(&cp2, add(x.v, v), add(x.r, rr))
	case 18:
		if len(w.know) == 0 || len(w.refr) == 0 {
			say("no proofs yet")
			return
		}
		i, j, k, l := r.Intn(len(w.know)), r.Intn(len(w.know)), r.Intn(len(w.refr)), r.Intn(len(w.refr))
		say("decode know%d over a copy of know%d, refresh%d over a copy of refresh%d", j, i, l, k)
		kp := *w.know[i].p
		kb := knowBytes(w.know[j].p)
		if err := kp.Decode(newReader(kb)); err != nil || !bytes.Equal(knowBytes(&kp), kb) {
			w.c.Violate("decode", "%v: %v", w.trace, err)
		}
		rp := *w.refr[k].p
		rb := refrBytes(w.refr[l].p)
		if err := rp.Decode(newReader(rb)); err != nil || !bytes.Equal(refrBytes(&rp), rb) {
			w.c.Violate("decode", "%v: %v", w.trace, err)
		}
	case 19:
		// scalars belong to the caller, who may use the object for another number
		k := ki()
		if w.foreign[w.ints[k]] {
			say("k%d is not the caller's", k)
			return
		}
		say("k%d is changed", k)
		w.ints[k].Set(RandAnyScalar(r))
		for _, s := range w.snaps {
			if s.name == fmt.Sprintf("scalar k%d", k) {
				s.was = s.now()
			}
		}
	}
}

// raceC02 shares everything between goroutines.
func raceC02(c *mon.Ctx) {
	for i := 0; i < c.Pick(12, 100); i++ {
		r := c.Rng("race", i)
		w := newWorld(c, r)
		for s := 0; s < 30; s++ {
			w.step(r)
		}
		ks := append([]*big.Int{}, w.ints...)
		for j := 0; j < 8; j++ {
			ks = append(ks, RandScalar(r))
		}
		// objects that nothing has looked at yet: whatever the code computes on first use, several
		// goroutines ask for at once
		w.g = curve.NewSecp256k1Group()
		hp := w.g.ScalarMult(FromRef(w.g, w.h), bi(1))
		w.fct = commitment.NewElGamalFactory(hp)
		for j, k := 0, len(w.pts); j < k; j++ {
			p, q := w.pts[j].p, w.pts[r.Intn(k)].p
			switch j % 3 {
			case 0:
				w.pts[j].p = w.g.Add(p, q)
			case 1:
				w.pts[j].p = w.g.Neg(p)
			case 2:
				w.pts[j].p = w.g.ScalarMult(p, bi(int64(j)))
			}
		}
		w.pts[0].p = hp
		for j := range w.comms {
			x, rr := w.comms[j], RandScalar(r)
			w.comms[j] = commReg{p: w.fct.Neutral().Compose(CommFrom(ref.Commit(w.h, x.v, x.r)), w.fct.Create(bi(0), rr)), v: x.v, r: add(x.r, rr)}
		}
		w.know, w.refr = nil, nil
		for j := 0; j < 3; j++ {
			x, rr := w.comms[r.Intn(len(w.comms))], RandScalar(r)
			if p, err := zkpok.NewZKEGKnow(w.fct, x.p, x.v, x.r); err == nil {
				w.know = append(w.know, knowReg{p: p, c: x})
			}
			y := commReg{p: w.fct.Neutral().Compose(x.p, w.fct.Create(bi(0), rr)), v: x.v, r: add(x.r, rr)}
			if p, err := zkpok.NewZKEGRefresh(w.fct, x.p, y.p, rr); err == nil {
				w.refr = append(w.refr, refrReg{p: p, c1: x, c2: y})
			}
		}
		// nothing is modified, receivers are goroutine-local
		type job func() []byte
		var jobs []job
		g := w.g
		for n := 0; n < 60; n++ {
			a, b, k, l := w.pts[r.Intn(len(w.pts))].p, w.pts[r.Intn(len(w.pts))].p, ks[r.Intn(len(ks))], ks[r.Intn(len(ks))]
			ca, cb := w.comms[r.Intn(len(w.comms))].p, w.comms[r.Intn(len(w.comms))].p
			switch n % 12 {
			case 0:
				jobs = append(jobs, func() []byte { return Enc(g, g.Add(a, b)) })
			case 1:
				jobs = append(jobs, func() []byte { return Enc(g, g.ScalarMult(a, k)) })
			case 2:
				jobs = append(jobs, func() []byte { return Enc(g, g.ScalarBaseMult(k)) })
			case 3:
				jobs = append(jobs, func() []byte { return Enc(g, g.Neg(a)) })
			case 4:
				jobs = append(jobs, func() []byte { return EncComm(w.fct.Create(k, l)) })
			case 5:
				jobs = append(jobs, func() []byte { return EncComm(w.fct.Neutral().Compose(ca, cb)) })
			case 6:
				jobs = append(jobs, func() []byte { x := w.fct.Neutral(); x.Exp(ca, k); return EncComm(x.Inverse(x)) })
			case 7:
				jobs = append(jobs, func() []byte {
					return []byte(fmt.Sprint(w.fct.IsNeutral(ca), ca.Equal(ca, cb), g.Equal(a, b), g.Order(), w.fct.Curve().Order()))
				})
			case 8:
				m := []byte(k.Text(16))
				jobs = append(jobs, func() []byte { return pkg.HashToBigInt(m).Bytes() })
			case 9:
				if len(w.know) > 0 {
					kr := w.know[r.Intn(len(w.know))]
					jobs = append(jobs, func() []byte { return []byte(fmt.Sprint(kr.p.Verify(w.fct, kr.c.p), knowBytes(kr.p))) })
				}
			case 10:
				if len(w.refr) > 0 {
					kr := w.refr[r.Intn(len(w.refr))]
					jobs = append(jobs, func() []byte { return []byte(fmt.Sprint(kr.p.Verify(w.fct, kr.c1.p, kr.c2.p), refrBytes(kr.p))) })
				}
			case 11:
				x := w.comms[r.Intn(len(w.comms))]
				jobs = append(jobs, func() []byte {
					st := w.fct.Create(x.v, x.r)
					p, err := zkpok.NewZKEGKnow(w.fct, st, x.v, x.r)
					if err != nil {
						return []byte(err.Error())
					}
					q, err := zkpok.NewZKEGRefresh(w.fct, st, w.fct.Neutral().Compose(st, w.fct.Create(bi(0), k)), k)
					if err != nil {
						return []byte(err.Error())
					}
					f2 := commitment.NewElGamalFactory(w.pts[0].p)
					return []byte(fmt.Sprint(p.Verify(f2, st), q.Verify(f2, st, f2.Neutral().Compose(st, f2.Create(bi(0), k)))))
				})
			}
		}
		type result struct {
			k   int
			got []byte
		}
		results := make([][]result, 8)
		var wg sync.WaitGroup
		for t := 0; t < 8; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				mine := make([]result, 0, len(jobs))
				rr := rand.New(rand.NewSource(int64(i*100 + t)))
				// no synchronisation in here: it would hide races
				for n := 0; n < len(jobs); n++ {
					k := rr.Intn(len(jobs))
					c.Guard("shared", "shared use", func() { mine = append(mine, result{k, jobs[k]()}) })
				}
				results[t] = mine
			}(t)
		}
		wg.Wait()
		c.Count("shared_operations_under_race_detector", int64(8*len(jobs)))
		// the same alone, afterwards
		want := make([][]byte, len(jobs))
		for n, j := range jobs {
			want[n] = j()
		}
		for t := range results {
			for _, x := range results[t] {
				c.Eval("race %d %d %d", i, t, x.k)
				if !bytes.Equal(x.got, want[x.k]) {
					c.Violate("shared", "job %d gives %x concurrently, %x alone", x.k, x.got, want[x.k])
				}
			}
		}
		w.verify()
	}
}
