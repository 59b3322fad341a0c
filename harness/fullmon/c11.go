package fullmon

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"time"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// C11 alters single messages.
var C11 = &mon.Monitor{
	Level:   "fault_enumeration",
	Rule:    "one evaluation is one protocol run in which one message (chosen operation, round, sender and receiver) is altered in one way: bits flipped, truncated, extended, emptied, replaced by noise, by another party's or the receiver's own message of the round, by an earlier message of the sender, by that of an earlier run, a point shifted, negated, made neutral or exchanged with another, or the group order added; every party that reports no error must hold a result that agrees with what the parties drew; the results of Gen and Mult are judged by resharing them; distinct by operation, size, round, link, alteration and repetition",
	MinEval: 800,
	Assume:  []string{"a party that reports an error dies, closing its connections"},
	Run:     runC11,
}

const (
	aFlip = iota
	aFlipFirst
	aFlipLast
	aFlipMany
	aTrunc
	aTruncOne
	aEmpty
	aExtend
	aExtendRand
	aPrepend
	aOther
	aOwn
	aEarlier
	aEarlierRun
	aOldFrame
	aWrongPid
	aNoise
	aZeroByte
	aShift
	aNeutral
	aShiftAny
	aNegAny
	aSwapPoints
	aAddOrder
	aKinds
)

var alterNames = []string{"one bit flipped", "first byte changed", "last byte changed", "several bits flipped", "truncated", "last byte missing", "emptied", "a zero byte appended",
	"bytes appended", "a zero byte in front", "another party's message", "the receiver's own message", "the sender's message of an earlier round", "the sender's message of an earlier run", "an earlier frame", "another sender in the header", "noise", "a byte zeroed", "first point shifted by the generator", "first point made neutral",
	"some point shifted by a multiple of the generator", "some point negated", "two points exchanged", "the group order added to a number"}

// alter is one planned alteration.
type alter struct {
	round, from, to, kind int
}

func (a alter) String() string {
	return fmt.Sprintf("message of round %d from %d to %d: %s", a.round, a.from, a.to, alterNames[a.kind])
}

// armed watches the frames and alters the planned one.
type armed struct {
	a       alter
	r       *rand.Rand
	base    int64
	prev    map[[3]int][]byte // data of the earlier run: round, from, to
	mx      sync.Mutex
	cond    *sync.Cond
	seen    map[[3]int]*simnet.Frame
	orig    []byte
	changed []byte
	hit     bool
	same    bool
}

func (k *kit) arm(a alter, r *rand.Rand, prev []*simnet.Frame, prevBase int64) *armed {
	m := &armed{a: a, r: r, base: k.nextRound(), seen: map[[3]int]*simnet.Frame{}, prev: map[[3]int][]byte{}}
	m.cond = sync.NewCond(&m.mx)
	for _, f := range prev {
		m.prev[[3]int{int(f.Round - prevBase), int(f.From), int(f.To)}] = f.Data
	}
	k.SetOnFrame(m.frame)
	return m
}

func (m *armed) wait(key [3]int) *simnet.Frame {
	end := time.Now().Add(3 * time.Second)
	stop := time.AfterFunc(3*time.Second, func() { m.mx.Lock(); m.cond.Broadcast(); m.mx.Unlock() })
	defer stop.Stop()
	for m.seen[key] == nil && time.Now().Before(end) {
		m.cond.Wait()
	}
	return m.seen[key]
}

func (m *armed) frame(f *simnet.Frame) simnet.Verdict {
	m.mx.Lock()
	defer m.mx.Unlock()
	rd := int(f.Round - m.base)
	m.seen[[3]int{rd, int(f.From), int(f.To)}] = f
	m.cond.Broadcast()
	a := m.a
	if rd != a.round || int(f.From) != a.from || int(f.To) != a.to {
		return simnet.Verdict{}
	}
	d := append([]byte{}, f.Data...)
	raw := []byte(nil)
	flip := func(i int) {
		if len(d) > 0 {
			d[i%len(d)] ^= 1 << uint(m.r.Intn(8))
		}
	}
	switch a.kind {
	case aFlip:
		flip(m.r.Intn(1 << 20))
	case aFlipFirst:
		flip(0)
	case aFlipLast:
		flip(len(d) - 1 + len(d))
	case aFlipMany:
		for i := 2 + m.r.Intn(5); i > 0; i-- {
			flip(m.r.Intn(1 << 20))
		}
	case aTrunc:
		if len(d) > 0 {
			d = d[:m.r.Intn(len(d))]
		}
	case aTruncOne:
		if len(d) > 0 {
			d = d[:len(d)-1]
		}
	case aEmpty:
		d = d[:0]
	case aExtend:
		d = append(d, 0)
	case aExtendRand:
		e := make([]byte, 1+m.r.Intn(80))
		m.r.Read(e)
		d = append(d, e...)
	case aPrepend:
		d = append([]byte{0}, d...)
	case aOther, aOwn:
		from := a.to
		if a.kind == aOther {
			for from = 0; from == a.from || from == a.to; from++ {
			}
		}
		to := a.to
		if a.kind == aOwn {
			to = a.from
		}
		if g := m.wait([3]int{rd, from, to}); g != nil {
			d = append([]byte{}, g.Data...)
		}
	case aEarlier:
		e := rd - 1 - m.r.Intn(2)
		if e < 0 {
			e = 0
		}
		if g := m.seen[[3]int{e, a.from, a.to}]; g != nil {
			d = append([]byte{}, g.Data...)
		}
	case aEarlierRun:
		if g, ok := m.prev[[3]int{rd, a.from, a.to}]; ok {
			d = append([]byte{}, g...)
		}
	case aOldFrame:
		raw = simnet.RawFrame(f.Pid, f.Round-1, f.Data)
		if g := m.seen[[3]int{rd - 1, a.from, a.to}]; g != nil {
			raw = g.Raw
		}
	case aWrongPid:
		raw = simnet.RawFrame(f.To, f.Round, f.Data)
	case aNoise:
		m.r.Read(d)
	case aZeroByte:
		if len(d) > 0 {
			d[m.r.Intn(len(d))] = 0
		}
	case aShift, aNeutral:
		if ps := pointsIn(d); len(ps) > 0 {
			q := ref.Inf
			if a.kind == aShift {
				q = ps[0].p.Add(ref.G)
			}
			d = splice(d, ps[0], q)
		}
	case aShiftAny, aNegAny:
		if ps := pointsIn(d); len(ps) > 0 {
			x := ps[m.r.Intn(len(ps))]
			q := x.p.Neg()
			if a.kind == aShiftAny {
				q = x.p.Add(ref.Base(bi(int64(1 + m.r.Intn(3)))))
			}
			d = splice(d, x, q)
		}
	case aSwapPoints:
		if ps := pointsIn(d); len(ps) > 1 {
			i := m.r.Intn(len(ps) - 1)
			j := i + 1
			if m.r.Intn(2) == 0 {
				j = i + 1 + m.r.Intn(len(ps)-1-i)
			}
			d = splice(splice(d, ps[j], ps[i].p), ps[i], ps[j].p)
		}
	case aAddOrder:
		if len(d) > 0 && len(d) < 33 {
			d = add(new(big.Int).SetBytes(d), mul(ref.N, bi(int64(1+m.r.Intn(3))))).Bytes()
		} else if len(d) > 36 {
			// a proof: its last number
			x := new(big.Int).SetBytes(d[len(d)-32:])
			if y := add(x, ref.N).Bytes(); len(y) == 32 {
				copy(d[len(d)-32:], y)
			}
		}
	}
	m.hit = true
	m.orig, m.changed = f.Data, d
	m.same = raw == nil && bytes.Equal(d, f.Data)
	if raw == nil {
		raw = simnet.RawFrame(f.Pid, f.Round, d)
	}
	return simnet.Verdict{Replace: [][]byte{raw}}
}

// pointAt is a group element inside a message.
type pointAt struct {
	off, end int
	p        ref.Pt
}

func pointsIn(d []byte) []pointAt {
	var out []pointAt
	for off := 0; off+8 < len(d); {
		p, rest, err := ref.DecodePt(d[off:])
		if err != nil || p.IsInf() {
			off++
			continue
		}
		out = append(out, pointAt{off, len(d) - len(rest), p})
		off = len(d) - len(rest)
	}
	return out
}

func splice(d []byte, at pointAt, q ref.Pt) []byte {
	return append(append(append([]byte{}, d[:at.off]...), q.Encode()...), d[at.end:]...)
}

type target struct {
	name   string
	rounds int
	run    func(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int)
}

func runC11(c *mon.Ctx) {
	targets := []target{{"key generation", 2, alterGER}, {"generation", 1, alterGen}, {"resharing", 6, alterReshare}, {"exponentiation", 1, alterExp}, {"revealing", 1, alterReveal},
		{"private multiplication", 2, alterPrivMult}, {"multiplication", 4, alterMult}, {"Diffie-Hellman check", 3, alterDH}}
	paillierKeys(7, 1024)
	type job struct {
		tg   target
		n, t int
		a    alter
		rep  int
	}
	var jobs []job
	for _, tg := range targets {
		for _, n := range []int{3, 2, 4, 7} {
			for rd := 0; rd < tg.rounds; rd++ {
				for kind := 0; kind < aKinds; kind++ {
					if kind == aOther && n < 3 {
						continue
					}
					if n == 7 && c.Quick && kind != aFlip && kind != aShiftAny && kind != aSwapPoints && kind != aOther && kind != aEarlierRun {
						continue
					}
					rng := c.Rng("links", n, rd, kind, tg.rounds)
					var links [][2]int
					for p := 0; p < n; p++ {
						for q := 0; q < n; q++ {
							if p != q {
								links = append(links, [2]int{p, q})
							}
						}
					}
					rng.Shuffle(len(links), func(i, j int) { links[i], links[j] = links[j], links[i] })
					if c.Quick {
						max := 3
						if n != 3 {
							max = 1
						}
						links = links[:max]
					}
					reps := 1
					if kind == aFlip || kind == aFlipMany || kind == aTrunc {
						reps = c.Pick(2, 8)
					}
					for _, l := range links {
						for rep := 0; rep < reps; rep++ {
							jobs = append(jobs, job{tg, n, 1 + rng.Intn(n), alter{rd, l[0], l[1], kind}, rep})
						}
					}
				}
			}
		}
	}
	c.Parallel(len(jobs), 12, func(i int) {
		j := jobs[i]
		r := c.Rng("job", i)
		o := simnet.Opts{N: j.n}
		if r.Intn(4) == 0 {
			o = netOpts(r, j.n)
		}
		desc := fmt.Sprintf("%s by %s, threshold %d: %v (repetition %d)", j.tg.name, describe(o), j.t, j.a, j.rep)
		k := newKit(c, r, o, desc)
		if k == nil {
			return
		}
		defer c.Begin("%s", desc)()
		defer k.Down()
		j.tg.run(c, r, k, j.a, j.t)
		c.Eval("%s/%d/%d/%v/%d", j.tg.name, j.n, j.t, j.a, j.rep)
		if i%(len(jobs)/8+1) == 0 {
			c.Sample("%s", desc)
		}
	})
}

// tally counts outcomes.
func tally(c *mon.Ctx, m *armed, errs []error) {
	if !m.hit {
		c.Count("not_reached", 1)
	} else if m.same {
		c.Count("unchanged_bytes", 1)
	} else if simnet.Errs(errs) > 0 {
		c.Count("detected_at_once", 1)
	} else {
		c.Count("not_detected_at_once", 1)
	}
}

func succeeded(errs []error) []int {
	var out []int
	for p, e := range errs {
		if e == nil {
			out = append(out, p)
		}
	}
	return out
}

func alterGER(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	m0, b0 := k.Mark(), k.nextRound()
	_, errs := k.ger("old")
	if !k.ok("GenExpReveal", errs) {
		return
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	m1 := k.Mark()
	keys, errs := k.ger("x")
	k.SetOnFrame(nil)
	if !k.noPanic("GenExpReveal", errs) {
		return
	}
	tally(c, m, errs)
	fr := k.rounds(k.FramesSince(m1))
	pk := ref.Inf
	for p := 0; p < k.N; p++ {
		d := sentBy(fr[0][p])
		if len(d) < 8 {
			return
		}
		// what was committed to is what was drawn
		q, _, err := ref.DecodePt(d[8:])
		if err != nil {
			return
		}
		pk = pk.Add(q)
	}
	for _, p := range succeeded(errs) {
		if got := k.pt(keys[p].PublicKey()); !got.Eq(pk) {
			c.Violate("genkey", "%s\nparty %d succeeds with the public key %v, the parties drew %v", k.desc, p, got, pk)
		}
	}
}

// judge lets the parties that succeeded reveal and exponentiate: whoever reports no error has to be right.
func (k *kit) judge(key string, tds []*arith.TDSecret, errs []error, pub ref.Pt) {
	ok := succeeded(errs)
	if len(ok) == 0 {
		return
	}
	vals, errs := k.reveal(ok, tds)
	if !k.noPanic("Reveal", errs) {
		return
	}
	var ok2 []int
	for _, p := range ok {
		if errs[p] == nil {
			ok2 = append(ok2, p)
			if vals[p] == nil || !ref.Base(vals[p]).Eq(pub) {
				k.c.Violate(key, "%s\nparty %d reveals a wrong secret %x without an error", k.desc, p, vals[p])
			}
		}
	}
	if len(ok2) == 0 {
		return
	}
	keys, errs := k.exp(ok2, tds)
	if !k.noPanic("Exp", errs) {
		return
	}
	for _, p := range ok2 {
		if errs[p] == nil && !k.pt(keys[p].PublicKey()).Eq(pub) {
			k.c.Violate(key, "%s\nparty %d exponentiates to a wrong key without an error", k.desc, p)
		}
	}
}

func alterGen(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	m0, b0 := k.Mark(), k.nextRound()
	if k.deal("old") == nil {
		return
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	m1 := k.Mark()
	ads, errs := k.gen("x")
	k.SetOnFrame(nil)
	if !k.noPanic("Gen", errs) {
		return
	}
	tally(c, m, errs)
	pub := k.genPub(k.FramesSince(m1))
	ok := succeeded(errs)
	tds, errs := k.reshareAt(ok, ads, t)
	if !k.noPanic("Reshare", errs) {
		return
	}
	for p := range errs {
		if !has(ok, p) {
			errs[p] = fmt.Errorf("failed before")
		}
	}
	k.judge("gen", tds, errs, pub)
}

// genPub is the public key of the secret generated in the given frames, by their original content.
func (k *kit) genPub(fs []*simnet.Frame) ref.Pt {
	fr := k.rounds(fs)
	pub := ref.Inf
	for p := 0; p < k.N; p++ {
		cm, _, err := ref.DecodeComm(sentBy(fr[0][p]))
		if err != nil {
			k.c.Violate("frame", "%s\nGen sends no commitment", k.desc)
			return pub
		}
		pub = pub.Add(cm.Open(k.dh))
	}
	return pub
}

func alterReshare(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	d := k.deal("x")
	if d == nil {
		return
	}
	m0, b0 := k.Mark(), k.nextRound()
	if _, errs := k.reshare(d.ads, t); !k.ok("Reshare", errs) {
		return
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	tds, errs := k.reshare(d.ads, t)
	k.SetOnFrame(nil)
	if !k.noPanic("Reshare", errs) {
		return
	}
	tally(c, m, errs)
	if simnet.Errs(errs) == 0 {
		// everybody is content: then the commitments agree, too
		again, errs := k.reshare(embed(tds), 1+r.Intn(k.N))
		if !k.noPanic("Reshare", errs) {
			return
		}
		if simnet.Errs(errs) > 0 {
			c.Violate("reshare", "%s\nall parties succeed, but do not accept each other's commitments: %v", k.desc, errs)
			return
		}
		_ = again
	}
	k.judge("reshare", tds, errs, d.pub)
}

func (k *kit) shared(t int) (*deal, []*arith.TDSecret) {
	d := k.deal("x")
	if d == nil {
		return nil, nil
	}
	tds, errs := k.reshare(d.ads, t)
	if !k.ok("Reshare", errs) {
		return nil, nil
	}
	return d, tds
}

func alterExp(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	d, tds := k.shared(t)
	if d == nil {
		return
	}
	m0, b0 := k.Mark(), k.nextRound()
	if _, errs := k.exp(k.alive(), tds); !k.ok("Exp", errs) {
		return
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	keys, errs := k.exp(k.alive(), tds)
	k.SetOnFrame(nil)
	if !k.noPanic("Exp", errs) {
		return
	}
	tally(c, m, errs)
	for _, p := range succeeded(errs) {
		if keys[p] != nil && k.pt(keys[p].PublicKey()).Eq(d.pub) {
			continue
		}
		key := "exp"
		if q, _, err := ref.DecodePt(m.changed); err == nil && q.OnCurve() && p == a.to {
			key = "exp-point-replaced" // nothing proves the points that are sent
		}
		c.Violate(key, "%s\nparty %d succeeds with a wrong key\nsent %x, delivered %x", k.desc, p, m.orig, m.changed)
	}
}

func alterReveal(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	d, tds := k.shared(t)
	if d == nil {
		return
	}
	m0, b0 := k.Mark(), k.nextRound()
	if _, errs := k.reveal(k.alive(), tds); !k.ok("Reveal", errs) {
		return
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	vals, errs := k.reveal(k.alive(), tds)
	k.SetOnFrame(nil)
	if !k.noPanic("Reveal", errs) {
		return
	}
	tally(c, m, errs)
	for _, p := range succeeded(errs) {
		if vals[p] != nil && ref.Base(vals[p]).Eq(d.pub) {
			continue
		}
		key := "reveal"
		if p == a.to && new(big.Int).SetBytes(m.changed).Cmp(new(big.Int).SetBytes(m.orig)) != 0 {
			key = "reveal-share-replaced" // nothing proves the shares that are sent
		}
		c.Violate(key, "%s\nparty %d succeeds with a wrong secret\nsent %x, delivered %x", k.desc, p, m.orig, m.changed)
	}
}

func alterPrivMult(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	privs, pubs := paillierKeys(k.N, 1024)
	as, bs := make([]*big.Int, k.N), make([]*big.Int, k.N)
	for p := range as {
		as[p], bs[p] = coremon.RandScalar(r), coremon.RandScalar(r)
	}
	run := func() ([]*big.Int, []error) {
		out := make([]*big.Int, k.N)
		errs := k.AllCut(func(p int) (err error) {
			out[p], err = arith.PrivMult(as[p], bs[p], p, k.N, k.srv[p], privs[p], pubs[p], pubs)
			return err
		})
		return out, errs
	}
	m0, b0 := k.Mark(), k.nextRound()
	if a.kind == aEarlierRun {
		if _, errs := run(); !k.ok("PrivMult", errs) {
			return
		}
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	out, errs := run()
	k.SetOnFrame(nil)
	if !k.noPanic("PrivMult", errs) {
		return
	}
	tally(c, m, errs)
	if simnet.Errs(errs) > 0 {
		return
	}
	if sum(out).Cmp(modN(mul(sum(as), sum(bs)))) != 0 {
		key := "privmult"
		if new(big.Int).SetBytes(m.changed).Cmp(new(big.Int).SetBytes(m.orig)) != 0 {
			key = "privmult-ciphertext-replaced" // nothing proves the ciphertexts that are sent
		}
		c.Violate(key, "%s\nall parties succeed, and the outputs do not sum to the product", k.desc)
	}
}

func (k *kit) mult(a, b []*arith.ADSecret, label string, privs []*paillier.PrivateKey, pubs []*paillier.PublicKey) ([]*arith.ADSecret, []error) {
	out := make([]*arith.ADSecret, k.N)
	errs := k.AllCut(func(p int) (err error) {
		out[p], err = arith.Mult(a[p], b[p], label, privs[p], pubs[p], pubs)
		return err
	})
	return out, errs
}

func alterMult(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	privs, pubs := paillierKeys(k.N, 1024)
	x, y := k.deal("x"), k.deal("y")
	if x == nil || y == nil || x.val == nil || y.val == nil {
		return
	}
	m0, b0 := k.Mark(), k.nextRound()
	if a.kind == aEarlierRun {
		if _, errs := k.mult(x.ads, y.ads, "z", privs, pubs); !k.ok("Mult", errs) {
			return
		}
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	z, errs := k.mult(x.ads, y.ads, "z", privs, pubs)
	k.SetOnFrame(nil)
	if !k.noPanic("Mult", errs) {
		return
	}
	tally(c, m, errs)
	ok := succeeded(errs)
	tds, errs := k.reshareAt(ok, z, t)
	if !k.noPanic("Reshare", errs) {
		return
	}
	for p := range errs {
		if !has(ok, p) {
			errs[p] = fmt.Errorf("failed before")
		}
	}
	key := "mult"
	if a.round < 2 && new(big.Int).SetBytes(m.changed).Cmp(new(big.Int).SetBytes(m.orig)) != 0 {
		key = "mult-ciphertext-replaced" // nothing proves the ciphertexts that are sent
	}
	k.judge(key, tds, errs, ref.Base(mul(x.val, y.val)))
}

func alterDH(c *mon.Ctx, r *rand.Rand, k *kit, a alter, t int) {
	keys, errs := k.ger("x")
	if !k.ok("GenExpReveal", errs) {
		return
	}
	pk := k.pt(keys[0].PublicKey())
	e := coremon.RandScalar(r)
	u, v := ref.Base(e), pk.Mul(e)
	wrong := r.Intn(4) > 0
	if wrong {
		switch r.Intn(3) {
		case 0:
			v = v.Add(ref.G)
		case 1:
			v = v.Neg()
		case 2:
			v = ref.Inf
		}
	}
	run := func() []error {
		return k.AllCut(func(p int) error {
			return arith.CheckDH(coremon.FromRef(k.g, u), coremon.FromRef(k.g, v), k.g, keys[p])
		})
	}
	m0, b0 := k.Mark(), k.nextRound()
	if a.kind == aEarlierRun && !wrong {
		if errs := run(); !k.ok("CheckDH", errs) {
			return
		}
	}
	m := k.arm(a, r, k.FramesSince(m0), b0)
	errs = run()
	k.SetOnFrame(nil)
	if !k.noPanic("CheckDH", errs) {
		return
	}
	tally(c, m, errs)
	if wrong {
		for _, p := range succeeded(errs) {
			c.Violate("checkdh", "%s\nparty %d accepts a wrong triple", k.desc, p)
		}
	}
}
