package fullmon

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"time"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// C14 monitors revealing and exponentiation with failing parties.
var C14 = &mon.Monitor{
	Level:   "fault_enumeration",
	Rule:    "one evaluation is one outcome at one live party of a Reveal or Exp by n parties of which a chosen set (every set for n up to 4) crashed before, crashes while sending (reaching some receivers only), or answers with bytes that are no point: with t usable answers the result is the secret or its key, with fewer it is an error; also of rounds that cannot take place; distinct by n, threshold, set of failing parties, way of failing, operation and party",
	MinEval: 800,
	Run:     runC14,
}

// swap is a server whose target can be changed.
type swap struct{ s rsync.Server }

func (s *swap) Start() { s.s.Start() }
func (s *swap) Stop()  { s.s.Stop() }
func (s *swap) Round(b [][]byte, f func(uint16, []byte) error) error {
	return s.s.Round(b, f)
}

const (
	wCrashed = iota
	wPartial
	wGarbage
	wMixed
	wWays
)

var wayNames = []string{"crashed before", "crash while sending", "undecodable answers", "mixed failures"}

func runC14(c *mon.Ctx) {
	type job struct {
		n, t int
		down []int
		way  int
	}
	var jobs []job
	for n := 1; n <= c.Pick(5, 6); n++ {
		for t := 1; t <= n; t++ {
			for size := 0; size < n; size++ {
				ss := subsets(n, size)
				if n > 4 && c.Quick {
					rng := c.Rng("sets", n, t, size)
					rng.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
					if len(ss) > 4 {
						ss = ss[:4]
					}
				}
				for _, s := range ss {
					for way := 0; way < wWays; way++ {
						if size == 0 && way > 0 {
							continue
						}
						jobs = append(jobs, job{n, t, s, way})
					}
				}
			}
		}
	}
	// larger committees, with some sets of failing parties
	for _, nt := range [][2]int{{9, 5}, {12, 4}, {7, 7}, {8, 2}} {
		for rep := 0; rep < c.Pick(2, 10); rep++ {
			rng := c.Rng("large", nt[0], rep)
			jobs = append(jobs, job{nt[0], nt[1], rng.Perm(nt[0])[:nt[0]-nt[1]], rng.Intn(wWays)}, job{nt[0], nt[1], rng.Perm(nt[0])[:rng.Intn(nt[0])], rng.Intn(wWays)})
		}
	}
	// thresholds for which the factors of Lagrange coefficients get long
	for rep := 0; rep < c.Pick(1, 3); rep++ {
		rng := c.Rng("long", rep)
		jobs = append([]job{{24, 22, rng.Perm(24)[:2], rng.Intn(2)}}, jobs...)
	}
	reps := c.Pick(1, 6)
	c.Parallel(len(jobs)*reps, 10, func(i int) {
		j := jobs[i%len(jobs)]
		r := c.Rng("session", i)
		o := simnet.Opts{N: j.n}
		if r.Intn(3) == 0 {
			o = netOpts(r, j.n)
		}
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s, threshold %d; parties %v: %s", i, describe(o), j.t, j.down, wayNames[j.way]))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		k.failing(r, i, j.t, j.down, j.way)
		if i%97 == 0 {
			c.Sample("%s", k.desc)
		}
	})
	c.Parallel(c.Pick(4, 12), 4, func(i int) { manyTimes(c, c.Rng("many", i), i) })
	c.Parallel(c.Pick(24, 200), 6, func(i int) { noRound(c, c.Rng("noround", i), i) })
}

func (k *kit) failing(r *rand.Rand, id, t int, down []int, way int) {
	c := k.c
	d, tds := k.shared(t)
	if d == nil {
		return
	}
	live := without(k.N, down)
	if k.N > 1 && d.val != nil && r.Intn(3) == 0 {
		if d, tds = k.zeroShare(r, d, tds, t); d == nil {
			return
		}
	}
	// what reaches whom: usable[from][to]
	ops := []string{"Reveal", "Exp", "Exp", "Reveal"}
	if r.Intn(2) == 0 {
		ops = []string{"Exp", "Reveal", "Reveal", "Exp"}
	}
	if way == wGarbage || way == wMixed {
		ops = []string{"Exp", "Exp"} // any bytes are a share for Reveal
	}
	wayOf := map[int]int{}
	for _, p := range down {
		wayOf[p] = way
		if way == wMixed {
			wayOf[p] = []int{wCrashed, wGarbage, wPartial}[r.Intn(3)]
		}
	}
	reach := map[[2]int]bool{} // a partial crasher's message arrives
	crashed := map[int]bool{}
	for _, p := range down {
		switch wayOf[p] {
		case wCrashed:
			k.Cut(uint16(p))
			crashed[p] = true
		case wPartial:
			for _, q := range live {
				reach[[2]int{p, q}] = r.Intn(2) == 0
			}
		}
	}
	for round, op := range ops {
		usable := map[int]int{}
		for _, q := range live {
			n := len(live)
			for _, p := range down {
				if !crashed[p] && wayOf[p] == wPartial && reach[[2]int{p, q}] {
					n++
				}
			}
			usable[q] = n
		}
		base := k.nextRound()
		k.SetOnFrame(func(f *simnet.Frame) simnet.Verdict {
			p, q := int(f.From), int(f.To)
			w, bad := wayOf[p]
			if !bad || f.Round != base {
				return simnet.Verdict{}
			}
			if w == wPartial {
				if reach[[2]int{p, q}] {
					return simnet.Verdict{Close: true}
				}
				b := f.Raw[:int(f.Raw[len(f.Raw)-1])%len(f.Raw)]
				return simnet.Verdict{Replace: [][]byte{b}, Close: true}
			}
			if w == wGarbage {
				return simnet.Verdict{Replace: [][]byte{simnet.RawFrame(f.Pid, f.Round, garbage(f.Data))}}
			}
			return simnet.Verdict{}
		})
		var acting []int
		acting = append(acting, live...)
		for _, p := range down {
			if !crashed[p] {
				acting = append(acting, p)
			}
		}
		var vals []*big.Int
		var keys []*arith.TDKey
		var errs []error
		// nobody dies of an error here: those that cannot finish simply stay
		if op == "Reveal" {
			vals = make([]*big.Int, k.N)
			errs = k.Some(acting, func(p int) (err error) { vals[p], err = tds[p].Reveal(); return err })
		} else {
			keys = make([]*arith.TDKey, k.N)
			errs = k.Some(acting, func(p int) (err error) { keys[p], err = tds[p].Exp(); return err })
		}
		k.SetOnFrame(nil)
		what := fmt.Sprintf("%s %d", op, round)
		if !k.noPanic(what, errs) {
			return
		}
		for _, p := range live {
			c.Eval("%d/%d/%v/%d/%d/%s/%d", k.N, t, down, way, round, op, p)
			enough := usable[p] >= t
			if !enough {
				c.Count("too_few", 1)
				if errs[p] == nil {
					c.Violate("toofew", "%s\n%s: party %d got %d usable answers (with its own) and returns no error", k.desc, what, p, usable[p])
				} else if op == "Reveal" && vals[p] != nil || op == "Exp" && keys[p] != nil {
					c.Violate("toofew", "%s\n%s: party %d returns a result with the error %v", k.desc, what, p, errs[p])
				}
				continue
			}
			c.Count("enough", 1)
			if errs[p] != nil {
				c.Violate("failed", "%s\n%s: party %d got %d usable answers (with its own) and fails: %v", k.desc, what, p, usable[p], errs[p])
				continue
			}
			if op == "Reveal" {
				k.checkValue("value", fmt.Sprintf("%s at party %d", what, p), vals[p], d.pub, d.val)
			} else {
				if k.checkKey("key", fmt.Sprintf("%s at party %d", what, p), keys[p], d.pub) {
					if keys[p].Label() != "x" || keys[p].Threshold() != uint16(t) {
						c.Violate("label", "%s\n%s: the key of party %d says label %q, threshold %d", k.desc, what, p, keys[p].Label(), keys[p].Threshold())
					}
				}
			}
		}
		for _, p := range down {
			if wayOf[p] == wPartial {
				crashed[p] = true
				k.Cut(uint16(p))
			}
		}
		if c.Violated() {
			return
		}
	}
}

// zeroShare combines a secret with another one such that the share of one party becomes zero.
func (k *kit) zeroShare(r *rand.Rand, d *deal, tds []*arith.TDSecret, t int) (*deal, []*arith.TDSecret) {
	e, tes := k.shared(t)
	if e == nil {
		return nil, nil
	}
	if e.val == nil {
		return d, tds
	}
	var sh [2][]*big.Int
	for i, s := range [][]*arith.TDSecret{tds, tes} {
		m := k.Mark()
		if _, errs := k.reveal(k.alive(), s); !k.ok("Reveal", errs) {
			return nil, nil
		}
		for _, fs := range k.rounds(k.FramesSince(m))[0] {
			sh[i] = append(sh[i], modN(new(big.Int).SetBytes(sentBy(fs))))
		}
	}
	z := r.Intn(k.N)
	al, be := sh[1][z], modN(sub(ref.N, sh[0][z]))
	out := make([]*arith.TDSecret, k.N)
	for p := range out {
		out[p] = arith.Lin(new(big.Int).Set(al), new(big.Int).Set(be), tds[p], tes[p], "x")
	}
	f := *d
	f.val = modN(add(mul(al, d.val), mul(be, e.val)))
	f.pub = ref.Base(f.val)
	k.c.Count("secrets_with_a_zero_share", 1)
	return &f, out
}

// garbage makes bytes that are certainly no point.
func garbage(d []byte) []byte {
	n := 0
	for _, b := range d {
		n += int(b)
	}
	if len(d) < 20 { // the neutral element
		n = 0
	}
	switch n % 7 {
	case 0:
		return nil
	case 1:
		return d[:len(d)-1-n%(len(d)-1)]
	case 2:
		return bytes.Repeat([]byte{0xff}, 40)
	case 3:
		q, _, _ := ref.DecodePt(d)
		if q.IsInf() {
			return []byte{1}
		}
		return ref.RawPoint(q.X.Bytes(), add(q.Y, bi(1)).Bytes())
	case 4:
		return []byte{0, 0, 0}
	case 5:
		return ref.RawPoint(ref.P.Bytes(), ref.G.Y.Bytes())
	default:
		e := append([]byte{}, d...)
		e[3] ^= 0x40
		return e[:20]
	}
}

// noRound makes the round impossible: the start time is over, or there is no round at all.
func noRound(c *mon.Ctx, r *rand.Rand, id int) {
	n := 1 + id%4
	t := 1 + (id/4)%n
	desc := fmt.Sprintf("session noround %d: %d parties, threshold %d, the round is past its start time", id, n, t)
	k := newKit(c, r, simnet.Opts{N: n}, desc)
	if k == nil {
		return
	}
	defer c.Begin("%s", desc)()
	defer k.Down()
	sw := make([]*swap, n)
	for p := range sw {
		sw[p] = &swap{k.Srv[p]}
		k.srv = append(k.srv[:p:p], append([]rsync.Server{sw[p]}, k.srv[p+1:]...)...)
	}
	es := coremon.RandScalar(r)
	k.genScript(0, es)
	d, tds := k.shared(t)
	if d == nil {
		return
	}
	late := simnet.StartOnly(simnet.Opts{N: n, Seed: r.Int63()}, -time.Second)
	defer late.Down()
	for p := range sw {
		sw[p].s = late.Srv[p]
	}
	exp := id%2 == 0
	errs := k.All(func(p int) error {
		if exp {
			key, err := tds[p].Exp()
			if err == nil {
				c.Violate("noround", "%s\nExp at party %d returns a key although no round took place: %v", desc, p, key != nil)
			}
			return err
		}
		v, err := tds[p].Reveal()
		if err == nil {
			c.Violate("noround", "%s\nReveal at party %d returns %x although no round took place", desc, p, v)
		}
		return err
	})
	if !k.noPanic("an operation without a round", errs) {
		return
	}
	for p := 0; p < n; p++ {
		c.Eval("noround/%d/%d", id, p)
	}
	c.Count("rounds_that_cannot_take_place", 1)
}

// manyTimes reveals and exponentiates one secret again and again.
func manyTimes(c *mon.Ctx, r *rand.Rand, id int) {
	n := 1 + id%4
	t := 1 + r.Intn(n)
	k := newKit(c, r, simnet.Opts{N: n}, fmt.Sprintf("session many %d: %d parties, threshold %d, many operations on one secret", id, n, t))
	if k == nil {
		return
	}
	defer c.Begin("%s", k.desc)()
	defer k.Down()
	d, tds := k.shared(t)
	if d == nil {
		return
	}
	for op := 0; op < c.Pick(150, 700) && !c.Violated(); op++ {
		if (op%5 == 4) == (id%2 == 0) {
			vals, errs := k.reveal(k.alive(), tds)
			if !k.ok(fmt.Sprintf("Reveal as operation %d", op), errs) {
				return
			}
			for p, v := range vals {
				c.Eval("many/%d/%d/%d", id, op, p)
				k.checkValue("value", fmt.Sprintf("Reveal as operation %d at party %d", op, p), v, d.pub, d.val)
			}
		} else {
			keys, errs := k.exp(k.alive(), tds)
			if !k.ok(fmt.Sprintf("Exp as operation %d", op), errs) {
				return
			}
			for p, key := range keys {
				c.Eval("many/%d/%d/%d", id, op, p)
				k.checkKey("key", fmt.Sprintf("Exp as operation %d at party %d", op, p), key, d.pub)
			}
		}
		c.Count("operations_on_long_lived_secrets", 1)
	}
}
