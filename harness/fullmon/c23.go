package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
)

// C23 monitors the use of presignatures.
var C23 = &mon.Monitor{
	Rule:    "one evaluation is one step of a random history of presigning and signing (successful ones, ones in which every party is made to fail in a chosen round, and attempts without a presignature) by 1 to 5 parties: the nonce points on the wire of every attempt must be those of the oldest presignature not yet attempted, known from what the parties drew; no nonce is ever used twice; an empty attempt sends nothing; the threshold of each presignature is tested by exactly that many, and one fewer, parties; long queues are made in advance and used up; distinct by history and step",
	MinEval: 400,
	Assume:  []string{"all parties fail at the same point, as they do when every message of a round is spoilt; after partial failures the parties are out of step, which the code does not recover from"},
	Run:     runC23,
}

// spoil makes every party fail in the given round from now on, and nothing later.
func (k *kit) spoil(round int) {
	base := k.nextRound()
	k.SetOnFrame(func(f *simnet.Frame) simnet.Verdict {
		if f.Round == base+int64(round) {
			return simnet.Verdict{Replace: [][]byte{simnet.RawFrame(f.Pid, f.Round+7, f.Data)}}
		}
		return simnet.Verdict{}
	})
}

func runC23(c *mon.Ctx) {
	c.Parallel(c.Pick(64, 640), 8, func(i int) {
		r := c.Rng("history", i)
		n := size(c, i, 3, 2, 4, 3, 2, 1, 5, 3)
		o := netOpts(r, n)
		o.MaxDelay /= 4
		k := newKit(c, r, o, fmt.Sprintf("history %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		w := k.signers(r)
		if w == nil {
			return
		}
		w.history(r, i, c.Pick(12, 24))
	})
	c.Parallel(c.Pick(2, 6), 2, func(i int) {
		r := c.Rng("long", i)
		n := 2 + i%2
		k := newKit(c, r, simnet.Opts{N: n}, fmt.Sprintf("long queue %d of %d parties", i, n))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		if w := k.signers(r); w != nil {
			w.long(r, i, c.Pick([]int{75, 20}[i%2], []int{300, 80, 140}[i%3]))
		}
	})
}

// long makes a long queue of presignatures in advance and uses them up, making some more on the way.
func (w *signers) long(r *rand.Rand, id, count int) {
	k, c := w.k, w.k.c
	var queue []*presigned
	made := 0
	presign := func() bool {
		pr := w.presign(1 + r.Intn(k.N))
		if pr == nil {
			return false
		}
		queue = append(queue, pr)
		made++
		return true
	}
	for made < count {
		if !presign() {
			return
		}
	}
	for at := 0; len(queue) > 0; at++ {
		if at%10 == 7 && made < count+count/8 && !presign() {
			return
		}
		pr := queue[0]
		queue = queue[1:]
		msg := coremon.RandScalar(r)
		if at%5 == 3 {
			msg = bi(int64(at % 2)) // messages that come again
		}
		sigs, errs := w.sign(k.alive(), msg)
		what := fmt.Sprintf("signature %d after %d presignatures", at, made)
		if !k.noPanic(what, errs) {
			return
		}
		for p := range sigs {
			if errs[p] != nil || sigs[p] == nil {
				c.Violate("attempt", "%s\n%s: party %d: %v", k.desc, what, p, errs[p])
				return
			}
			if ps := parts(sigs[p]); len(ps) != 2 || !pr.isNonce(ps[0]) {
				c.Violate("order", "%s\n%s: party %d does not use the oldest unused presignature", k.desc, what, p)
				return
			}
		}
		c.Eval("long/%d/%d", id, at)
		c.Count("signatures_from_long_queues", 1)
	}
	sigs, errs := w.sign(k.alive(), bi(5))
	for p := range sigs {
		if errs[p] == nil || sigs[p] != nil {
			c.Violate("empty", "%s\nall %d presignatures are used, party %d signs", k.desc, made, p)
		}
	}
}

func (w *signers) history(r *rand.Rand, id, steps int) {
	k, c := w.k, w.k.c
	var queue []*presigned
	log := ""
	used := map[string]int{}
	var last *big.Int
	for st := 0; st < steps; st++ {
		op := r.Intn(10)
		what := ""
		bad := func(key, format string, a ...interface{}) {
			c.Violate(key, "%s\nhistory:%s\n%s: %s", k.desc, log, what, fmt.Sprintf(format, a...))
		}
		if st == steps-1 && k.N > 1 {
			w.thresholds(r, id, queue, log)
			return
		}
		switch {
		case op < 4:
			t := 1 + r.Intn(k.N)
			what = fmt.Sprintf("presign(%d)", t)
			pr := w.presign(t)
			if pr == nil {
				return
			}
			queue = append(queue, pr)
			c.Count("presignatures", 1)
		case op < 5 && k.N > 1:
			t := 1 + r.Intn(k.N)
			rd := []int{0, 1, 2, 3, 4, 8, 9, 10, 15, 20, 26, 27, r.Intn(28)}[r.Intn(13)]
			what = fmt.Sprintf("presign(%d) failing in round %d", t, rd)
			k.spoil(rd)
			errs := w.presignErrs(k.alive(), t)
			k.SetOnFrame(nil)
			if !k.noPanic(what, errs) {
				return
			}
			for p, e := range errs {
				if e == nil {
					bad("failedpresign", "no error at party %d", p)
					return
				}
			}
			c.Count("failed_presignings", 1)
		default:
			what = "sign"
			fail := -1
			if k.N > 1 && len(queue) > 0 && queue[0].t > 1 && r.Intn(3) == 0 {
				fail = r.Intn(3)
				what = fmt.Sprintf("sign failing in round %d", fail)
				k.spoil(fail)
			}
			msg := coremon.RandScalar(r)
			if last != nil && r.Intn(3) == 0 {
				msg.Set(last) // the same message again is one more attempt
			}
			last = new(big.Int).Set(msg)
			mark := k.Mark()
			sigs, errs := w.sign(k.alive(), msg)
			k.SetOnFrame(nil)
			if !k.noPanic(what, errs) {
				return
			}
			fs := k.FramesSince(mark)
			if len(queue) == 0 {
				what = "sign without a presignature"
				for p, e := range errs {
					if e == nil || sigs[p] != nil {
						bad("empty", "party %d: signature %v, error %v", p, sigs[p], e)
						return
					}
				}
				if len(fs) > 0 {
					bad("empty", "%d messages are sent", len(fs))
					return
				}
				c.Count("empty_attempts", 1)
				break
			}
			pr := queue[0]
			queue = queue[1:]
			for p, e := range errs {
				if (e != nil) != (fail >= 0) {
					bad("attempt", "party %d: error %v", p, e)
					return
				}
				if e != nil && sigs[p] != nil {
					bad("attempt", "party %d: a signature with the error %v", p, e)
				}
			}
			if k.N > 1 {
				kG, ok := w.nonce(k.rounds(fs), pr.t)
				if !ok && fail >= 0 {
					// it failed before the nonce was known
					c.Count("failed_before_nonce", 1)
					c.Count("failed_attempts", 1)
					c.Eval("%d/%d", id, st)
					log += " " + what
					continue
				}
				if !ok {
					bad("nonce", "no round consists of points")
					return
				}
				if at, again := used[kG.String()]; again {
					bad("reused", "the nonce was used in step %d", at)
					return
				}
				used[kG.String()] = st
				if !pr.holds(kG) {
					bad("order", "the nonce is not that of the oldest unused presignature, with threshold %d", pr.t)
					return
				}
			}
			if fail < 0 {
				for p := range sigs {
					if sigs[p] == nil {
						bad("attempt", "party %d: neither signature nor error", p)
						return
					}
					if ps := parts(sigs[p]); len(ps) != 2 || !pr.isNonce(ps[0]) {
						bad("order", "the signature of party %d is not made with the nonce of the oldest unused presignature", p)
						return
					}
				}
				c.Count("signatures", 1)
			} else {
				c.Count("failed_attempts", 1)
			}
		}
		c.Eval("%d/%d", id, st)
		log += " " + what
	}
	if id < 4 {
		c.Sample("%s:%s", k.desc, log)
	}
}

// nonce interpolates the points that the parties publish in the first round of signing with points.
func (w *signers) nonce(fr [][][]*simnet.Frame, t int) (ref.Pt, bool) {
next:
	for _, rd := range fr {
		var xs []int64
		var ys []ref.Pt
		for p := range rd {
			b := sentBy(rd[p])
			if b == nil {
				continue
			}
			q, rest, err := ref.DecodePt(b)
			if err != nil || len(rest) > 0 {
				continue next
			}
			xs, ys = append(xs, int64(p+1)), append(ys, q)
		}
		if len(xs) >= t {
			return ref.InterpolatePt(xs, ys), true
		}
	}
	return ref.Inf, false
}

// thresholds tests that the remaining presignatures have the thresholds asked for: with parties
// crashing one after another, signing works as long as enough are left.
func (w *signers) thresholds(r *rand.Rand, id int, queue []*presigned, log string) {
	k, c := w.k, w.k.c
	for len(queue) < 2 {
		pr := w.presign(1 + r.Intn(k.N))
		if pr == nil {
			return
		}
		queue = append(queue, pr)
	}
	live := k.alive()
	for i, pr := range queue {
		if len(live) > 1 {
			// down to exactly the threshold, or one below
			want := pr.t
			if i%2 == 1 || r.Intn(3) == 0 {
				want--
			}
			if want < 1 {
				want = 1
			}
			for len(live) > want {
				j := r.Intn(len(live))
				k.Cut(uint16(live[j]))
				live = append(append([]int{}, live[:j]...), live[j+1:]...)
			}
		}
		m := coremon.RandScalar(r)
		sigs, errs := w.sign(live, m)
		what := fmt.Sprintf("history:%s\nsigning with %d of %d parties and a presignature of threshold %d", log, len(live), k.N, pr.t)
		if !k.noPanic(what, errs) {
			return
		}
		for _, p := range live {
			if len(live) >= pr.t && errs[p] != nil || len(live) < pr.t && errs[p] == nil {
				c.Violate("threshold", "%s\n%s\nparty %d: %v", k.desc, what, p, errs[p])
				return
			}
			if errs[p] == nil {
				if ps := parts(sigs[p]); len(ps) != 2 || !pr.isNonce(ps[0]) {
					c.Violate("order", "%s\n%s\nparty %d signs with another nonce", k.desc, what, p)
					return
				}
			}
		}
		c.Eval("threshold/%d/%d", id, i)
		c.Count("threshold_tests", 1)
	}
}

var _ = big.NewInt
