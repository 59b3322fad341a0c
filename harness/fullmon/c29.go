package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// C29 lets parties cheat in resharing.
var C29 = &mon.Monitor{
	Level: "fault_enumeration",
	Rule: "one evaluation is one resharing (directly, repeated, or within presigning) in which one or more parties are played by the monitor, with arithmetic of its own: they follow the protocol, with random or odd choices, " +
		"which has to succeed with the right secret, or they deviate in one of 23 ways, with false proofs made in one of 8 ways, upon which every honest party has to report an error; distinct by committee, threshold, cheaters, deviation, forgery and place",
	MinEval: 400,
	Assume:  []string{"a party that reports an error dies, closing its connections", "cheaters tell everybody the same, except for evaluations"},
	Run:     runC29,
}

func runC29(c *mon.Ctx) {
	type job struct {
		n, t  int
		bad   []int
		kind  int
		forge int
		at    int
		delta int
		depth int // honest resharings before
		sign  int // 0, or 1 + the secret of a presignature
		odd   int
		null  bool
	}
	var jobs []job
	usesForge := map[int]bool{dSecretUnknown: true, dSecretProof: true, dConstant: true, dConstantRerand: true, dCoefProof: true, dCoefUnknown: true, dConstantProof: true, dEarlierData: true, dEarlierProofs: true,
		dEvalComm: true, dEvalCommOwn: true, dEvalCommPair: true, dEvalProof: true, dEvalHigher: true, dEvalOther: true, dEvalSent: true, dEvalSentRandom: true, dEvalSentBoth: true, dShareComm: true, dShareProof: true, dShareRandom: true}
	for kind := dSecretUnknown; kind < dCheats; kind++ {
		forges := 1
		if usesForge[kind] {
			forges = forgeries
		}
		for forge := 0; forge < forges; forge++ {
			rng := c.Rng("plan", kind, forge)
			reps := c.Pick(6, 50)
			if forges == 1 {
				reps = c.Pick(12, 100)
			}
			for rep := 0; rep < reps; rep++ {
				j := job{n: []int{2, 3, 3, 4, 4, 5}[rng.Intn(6)], kind: kind, forge: forge, at: rng.Intn(60), delta: rng.Intn(6), null: rng.Intn(3) == 0}
				j.t = 1 + rng.Intn(j.n)
				if rep%3 == 0 {
					j.t = []int{1, j.n}[rng.Intn(2)]
				}
				nb := 1 + rng.Intn(j.n-1)
				if rep%2 == 0 {
					nb = 1
				}
				j.bad = rng.Perm(j.n)[:nb]
				if rng.Intn(4) == 0 {
					j.depth = 1
				}
				if rng.Intn(6) == 0 && kind != dSecretUnknown {
					j.sign = 1 + rng.Intn(4)
				}
				jobs = append(jobs, j)
			}
		}
	}
	// some larger committees, with cheating anywhere
	for kind := dSecretUnknown; kind < dCheats; kind++ {
		rng := c.Rng("plan-large", kind)
		for rep := 0; rep < c.Pick(1, 6); rep++ {
			j := job{n: []int{7, 8, 9, 11}[rng.Intn(4)], kind: kind, at: rng.Intn(1000), delta: rng.Intn(6)}
			j.t = 1 + rng.Intn(j.n)
			if usesForge[kind] {
				j.forge = rng.Intn(forgeries)
			}
			j.bad = rng.Perm(j.n)[:1+rng.Intn(2)]
			jobs = append(jobs, j)
		}
	}
	// who follows the protocol is not refused; what may be refused must not do harm
	for _, kind := range []int{dNone, dUnreduced, dLongEval, dTrailing} {
		rng := c.Rng("plan-good", kind)
		for rep := 0; rep < c.Pick(12, 100)*map[bool]int{true: 3, false: 1}[kind == dNone]; rep++ {
			j := job{n: 2 + rng.Intn(4), kind: kind, delta: rng.Intn(6), depth: rng.Intn(2), odd: rng.Intn(6)}
			j.t = 1 + rng.Intn(j.n)
			j.bad = rng.Perm(j.n)[:1+rng.Intn(j.n-1)]
			if rng.Intn(6) == 0 {
				j.sign = 1
			}
			jobs = append(jobs, j)
		}
	}
	c.Rng("order").Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	c.Parallel(len(jobs), 12, func(i int) {
		j := jobs[i]
		r := c.Rng("job", i)
		o := simnet.Opts{N: j.n}
		if r.Intn(4) == 0 {
			o = netOpts(r, j.n)
		}
		dev := deviation{kind: j.kind, forge: j.forge, at: j.at, null: j.null}
		switch j.delta {
		case 0:
			dev.delta = bi(1)
		case 1:
			dev.delta = sub(ref.N, bi(1))
		case 2:
			dev.delta = sub(ref.N, bi(2))
		default:
			dev.delta = coremon.RandScalar(r)
		}
		desc := fmt.Sprintf("%s, threshold %d, %d resharings before; parties %v cheat, party %d %v", describe(o), j.t, j.depth, j.bad, j.bad[0], dev)
		if j.sign > 0 {
			desc += fmt.Sprintf(", in presigning, with secret %d", j.sign-1)
		}
		k := newKit(c, r, o, desc)
		if k == nil {
			return
		}
		defer c.Begin("%s", desc)()
		defer k.Down()
		var ps []*puppet
		for x, b := range j.bad {
			p := &puppet{k: k, pid: b, r: rand.New(rand.NewSource(r.Int63())), bad: j.bad}
			p.dev.delta = bi(0)
			if x == 0 {
				p.dev = dev
			} else if x == 1 && r.Intn(2) == 0 {
				p.dev = dev
				p.dev.delta = modN(sub(bi(0), dev.delta))
			}
			if j.kind == dNone && j.odd > 0 {
				p.dev.scalar = odd(p.r, j.odd)
			}
			ps = append(ps, p)
		}
		var cheated bool
		var errs []error
		if j.sign > 0 {
			cheated, errs = k.cheatPresign(r, ps, j.t, j.sign-1)
		} else {
			cheated, errs = k.cheatReshare(r, ps, j.t, j.depth)
		}
		if errs == nil {
			return
		}
		c.Eval("%d/%d/%v/%d/%d/%d/%d/%d/%d/%v", j.n, j.t, j.bad, j.kind, j.forge, j.at%j.n, j.delta, j.depth, j.sign, j.null)
		if i%(len(jobs)/8+1) == 0 {
			c.Sample("%s: %v", desc, errs)
		}
		good := without(k.N, j.bad)
		if !cheated {
			c.Count("following_or_harmless", 1)
			return
		}
		c.Count("cheated", 1)
		c.Count("cheat_"+fmt.Sprintf("%02d", j.kind), 1)
		for _, p := range good {
			if errs[p] == nil {
				c.Violate("accepted", "%s\nparty %d does not notice", desc, p)
				return
			}
		}
	})
}

// odd yields odd scalars now and then.
func odd(r *rand.Rand, mode int) func() *big.Int {
	es := []*big.Int{bi(0), bi(1), bi(2), sub(ref.N, bi(1)), sub(ref.N, bi(2)), new(big.Int).Rsh(ref.N, 1), bi(255), bi(256), new(big.Int).Lsh(bi(1), 128), new(big.Int).Lsh(bi(1), 255)}
	n := 0
	return func() *big.Int {
		n++
		switch mode {
		case 1: // nothing random
			return es[r.Intn(len(es))]
		case 2:
			if r.Intn(3) == 0 {
				return es[r.Intn(len(es))]
			}
		case 3:
			if n > 2 {
				return bi(0)
			}
		case 4:
			if n > 2 {
				return sub(ref.N, bi(1))
			}
		case 5: // short numbers
			return new(big.Int).Rsh(coremon.RandScalar(r), uint(r.Intn(250)))
		}
		return nil
	}
}

// mixed runs honest code at the honest parties and puppets at the others.
func (k *kit) mixed(ps []*puppet, honest func(p int) error, bad func(p *puppet) error) []error {
	return k.AllCut(func(p int) error {
		for _, q := range ps {
			if q.pid == p {
				return bad(q)
			}
		}
		return honest(p)
	})
}

func isBad(ps []*puppet, p int) bool { return has(ps[0].bad, p) }

func cheatedAny(ps []*puppet) bool {
	for _, p := range ps {
		if p.done {
			return true
		}
	}
	return false
}

func (k *kit) goodErr(ps []*puppet, errs []error) error {
	for p, e := range errs {
		if e != nil && !isBad(ps, p) {
			return e
		}
	}
	return nil
}

// cheatReshare generates and reshares with puppets; nil errors mean that the run is of no use.
func (k *kit) cheatReshare(r *rand.Rand, ps []*puppet, t, depth int) (bool, []error) {
	c := k.c
	ads := make([]*arith.ADSecret, k.N)
	mark := k.Mark()
	errs := k.mixed(ps, func(p int) (err error) {
		ads[p], err = arith.Gen("x", k.srv[p], k.egf[p], uint16(p), uint16(k.N))
		return err
	}, (*puppet).gen)
	if !k.noPanic("Gen", errs) {
		return false, nil
	}
	may := ps[0].dev.kind > dCheats // may be refused
	if simnet.Errs(errs) > 0 {
		if !may {
			c.Violate("refused", "%s\nGen with the monitor's parties fails: %v", k.desc, errs)
		}
		return false, nil
	}
	pub := k.genPub(k.FramesSince(mark))
	tds := make([]*arith.TDSecret, k.N)
	once := func(t int) []error {
		return k.mixed(ps, func(p int) (err error) {
			tds[p], err = ads[p].Reshare(uint16(t))
			return err
		}, func(p *puppet) error { return p.reshare(t) })
	}
	devs := make([]deviation, len(ps))
	for i, p := range ps {
		devs[i] = p.dev
		if p.dev.kind != dSecretUnknown {
			p.dev.kind = dNone
		}
	}
	for i := 0; i < depth && ps[0].dev.kind != dSecretUnknown; i++ {
		errs = once(1 + r.Intn(k.N))
		if !k.noPanic("Reshare", errs) {
			return false, nil
		}
		if simnet.Errs(errs) > 0 {
			c.Violate("refused", "%s\na resharing in which everybody follows the protocol fails: %v", k.desc, errs)
			return false, nil
		}
		ads = embed(tds)
		pub = ps[0].pub() // what is shared additively now
	}
	for i, p := range ps {
		p.dev = devs[i]
	}
	tds = make([]*arith.TDSecret, k.N)
	errs = once(t)
	if !k.noPanic("Reshare", errs) {
		return false, nil
	}
	if cheatedAny(ps) {
		for p := range tds {
			if tds[p] != nil && errs[p] != nil {
				c.Violate("result", "%s\nparty %d has an error and a result", k.desc, p)
			}
		}
		return true, errs
	}
	if e := k.goodErr(ps, errs); e != nil {
		if !may {
			c.Violate("refused", "%s\na resharing in which everybody follows the protocol fails: %v", k.desc, errs)
			return false, nil
		}
		c.Count("refused", 1)
		return false, errs
	}
	// the result has to be right at everybody who has one
	for _, p := range ps {
		if p.dev.kind != dTrailing {
			p.dev.kind = dNone
		}
	}
	vals := make([]*big.Int, k.N)
	res := append([]error{}, errs...)
	for step := 0; step < 2; step++ {
		if k.N > 1 && step == 1 {
			ads = embed(tds)
			tds = make([]*arith.TDSecret, k.N)
			for _, p := range ps {
				p.dev.kind = dNone
			}
			pub = ps[0].pub()
			errs = once(1 + r.Intn(k.N))
			if simnet.Errs(errs) > 0 {
				if !may {
					c.Violate("refused", "%s\nresharing again fails: %v", k.desc, errs)
				}
				return false, res
			}
		}
		errs = k.mixed(ps, func(p int) (err error) {
			vals[p], err = tds[p].Reveal()
			return err
		}, (*puppet).reveal)
		if !k.noPanic("Reveal", errs) {
			return false, nil
		}
		for p, v := range vals {
			if isBad(ps, p) || may && errs[p] != nil {
				continue
			}
			if errs[p] != nil || v == nil || !ref.Base(v).Eq(pub) {
				c.Violate("wrong", "%s\nafter the resharing (step %d, odd %v) party %d reveals %x (%v)", k.desc, step, ps[0].dev.scalar != nil, p, v, errs[p])
				return false, nil
			}
		}
		if simnet.Errs(errs) > 0 {
			return false, res
		}
		keys := make([]*arith.TDKey, k.N)
		errs = k.mixed(ps, func(p int) (err error) {
			keys[p], err = tds[p].Exp()
			return err
		}, (*puppet).exp)
		for p := range keys {
			if isBad(ps, p) || may && errs[p] != nil {
				continue
			}
			if errs[p] != nil || !k.pt(keys[p].PublicKey()).Eq(pub) {
				c.Violate("wrong", "%s\nafter the resharing party %d exponentiates to a wrong key (%v)", k.desc, p, errs[p])
				return false, nil
			}
		}
		if simnet.Errs(errs) > 0 {
			return false, res
		}
	}
	return false, res
}

// cheatPresign presigns with puppets that cheat when the given secret is reshared.
func (k *kit) cheatPresign(r *rand.Rand, ps []*puppet, t, at int) (bool, []error) {
	c := k.c
	w := k.signers(r)
	if w == nil {
		return false, nil
	}
	// the order of generations and resharings is that of an honest presigning
	m := k.Mark()
	if !k.ok("Presign", w.presignErrs(k.alive(), 1)) {
		return false, nil
	}
	steps, _, err := layout(k.rounds(k.FramesSince(m)), w.h)
	if err != nil {
		c.Violate("frames", "%s\nPresign has strange rounds: %v", k.desc, err)
		return false, nil
	}
	if _, errs := w.sign(k.alive(), bi(2)); !k.ok("Sign", errs) {
		return false, nil
	}
	k2 := *k
	k2.dh = w.h
	states := make(map[int][]*puppet)
	for _, p := range ps {
		p.k = &k2
		for j := 0; j < 4; j++ {
			q := *p
			if j != at {
				q.dev.kind = dNone
			}
			states[p.pid] = append(states[p.pid], &q)
		}
	}
	errs := k.mixed(ps, func(p int) error { return w.proto[p].Presign(uint16(t)) }, func(p *puppet) error {
		st := states[p.pid]
		for _, step := range steps {
			if step.reshare {
				if err := st[step.of].reshare(t); err != nil {
					return err
				}
			} else if err := st[step.of].gen(); err != nil {
				return err
			}
		}
		return nil
	})
	if !k.noPanic("Presign", errs) {
		return false, nil
	}
	for _, p := range ps {
		p.done = states[p.pid][at].done
	}
	if cheatedAny(ps) {
		// nothing may be left to sign with
		for p := 0; p < k.N; p++ {
			if !isBad(ps, p) && errs[p] != nil {
				if s, err := w.proto[p].Sign(bi(1)); err == nil {
					c.Violate("kept", "%s\nparty %d signs with a refused presignature: %v", k.desc, p, s)
					return false, nil
				}
			}
		}
		return true, errs
	}
	if k.goodErr(ps, errs) != nil && ps[0].dev.kind < dCheats {
		c.Violate("refused", "%s\nthe monitor's parties follow the protocol and are refused: %v", k.desc, errs)
		return false, nil
	}
	return false, errs
}
