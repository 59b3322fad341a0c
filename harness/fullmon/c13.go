package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"time"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
)

// C13 monitors resharing.
var C13 = &mon.Monitor{
	Rule:    "one evaluation is one set of parties whose shares (as they publish them in a reveal) are interpolated by the monitor: every set of t must give the secret drawn at generation, no set of t-1 may; for every number of parties up to 5 (7 in the thorough tier) and every threshold, a few committees of up to 17 (24) parties, with edge and random shares, and the same secret reshared several times with different thresholds; or one refused threshold; distinct by secret, threshold and set",
	MinEval: 400,
	Run:     runC13,
}

func runC13(c *mon.Ctx) {
	type job struct{ n, t int }
	// a few large committees, where powers of indices get long
	big := []job{{6, 6}, {7, 7}, {7, 4}, {9, 9}, {8, 5}, {12, 12}, {11, 3}, {17, 17}}
	if c.Pick(0, 1) == 1 {
		big = append(big, job{8, 8}, job{10, 10}, job{13, 11}, job{16, 16}, job{18, 17}, job{20, 20}, job{24, 2}, job{12, 7})
	}
	c.Parallel(len(big), 3, func(i int) {
		j := big[len(big)-1-i]
		r := c.Rng("large", i)
		reshares(c, r, simnet.Opts{N: j.n}, 1000+i, j.t)
	})
	var jobs []job
	for n := 1; n <= c.Pick(5, 7); n++ {
		for t := 1; t <= n; t++ {
			jobs = append(jobs, job{n, t})
		}
	}
	reps := c.Pick(3, 12)
	c.Parallel(len(jobs)*reps, 8, func(i int) {
		j := jobs[len(jobs)-1-i%len(jobs)]
		r := c.Rng("session", i)
		o := simnet.Opts{N: j.n}
		if i%3 == 1 {
			o = netOpts(r, j.n)
		}
		reshares(c, r, o, i, j.t)
	})
}

func reshares(c *mon.Ctx, r *rand.Rand, o simnet.Opts, id, t int) {
	k := newKit(c, r, o, fmt.Sprintf("session %d: %s, threshold %d", id, describe(o), t))
	if k == nil {
		return
	}
	defer c.Begin("%s", k.desc)()
	defer k.Down()
	if r.Intn(2) == 0 {
		es := coremon.EdgeScalars()
		for p := 0; p < k.N; p++ {
			k.genScript(p, modN(es[r.Intn(len(es))]))
		}
	}
	d := k.deal("x")
	if d == nil {
		return
	}
	if d.val == nil {
		c.Violate("share", "%s\na committed share is nothing that its party drew", k.desc)
		return
	}
	// refused thresholds send nothing
	m := k.Mark()
	for _, bad := range []int{0, k.N + 1, k.N + 2 + r.Intn(100), 255, 256, 65535} {
		if bad >= 1 && bad <= k.N {
			continue
		}
		stop := make(chan struct{})
		go func() {
			// a resharing that goes on may not end
			for {
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
				if n := len(k.FramesSince(m)); n > 0 {
					c.Violate("refused", "%s\nReshare(%d) among %d parties sends %d messages", k.desc, bad, k.N, n)
					return
				}
			}
		}()
		errs := k.All(func(p int) error {
			s, err := d.ads[p].Reshare(uint16(bad))
			if err == nil || s != nil {
				c.Violate("refused", "%s\nReshare(%d) among %d parties gives %v, %v", k.desc, bad, k.N, s, err)
			}
			return err
		})
		close(stop)
		if !k.noPanic("Reshare", errs) {
			return
		}
		c.Eval("refused/%d/%d", id, bad)
		c.Count("thresholds_refused", 1)
	}
	if len(k.FramesSince(m)) > 0 {
		c.Violate("refused", "%s\nrefused resharing sends %d messages", k.desc, len(k.FramesSince(m)))
	}
	ts := []int{t, 1 + r.Intn(k.N), k.N}
	if k.N >= 6 {
		ts = ts[:1]
	}
	if id < 15 && k.N <= 3 {
		// one secret reshared many times
		for len(ts) < c.Pick(24, 80) {
			ts = append(ts, 1+r.Intn(k.N))
		}
		c.Count("secrets_reshared_many_times", 1)
	}
	var prev [][]*big.Int
	for run, t := range ts {
		what := fmt.Sprintf("resharing %d with threshold %d", run, t)
		tds, errs := k.reshare(d.ads, t)
		if !k.ok(what, errs) {
			return
		}
		m := k.Mark()
		vals, errs := k.reveal(k.alive(), tds)
		if !k.ok("Reveal", errs) {
			return
		}
		shares := make([]*big.Int, k.N)
		if k.N == 1 {
			shares[0] = vals[0]
		} else {
			fr := k.rounds(k.FramesSince(m))
			for p := range shares {
				shares[p] = new(big.Int).SetBytes(sentBy(fr[0][p]))
				if shares[p].Cmp(ref.N) >= 0 {
					c.Violate("share", "%s\n%s: party %d's share is out of range", k.desc, what, p)
				}
			}
		}
		for p, v := range vals {
			k.checkValue("value", fmt.Sprintf("%s: party %d reveals", what, p), v, d.pub, d.val)
			if tds[p].Threshold() != uint16(t) || tds[p].Label() != "x" {
				c.Violate("threshold", "%s\n%s: party %d has threshold %d, label %q", k.desc, what, p, tds[p].Threshold(), tds[p].Label())
			}
		}
		for _, set := range someSubsets(r, k.N, t) {
			c.Eval("%d/%d/%d/%v", id, run, t, set)
			if v := interpolate(set, shares); v.Cmp(d.val) != 0 {
				c.Violate("interpolate", "%s\n%s: the shares of %v interpolate to %x, the secret is %x", k.desc, what, set, v, d.val)
			}
		}
		c.Count("resharings", 1)
		c.Count(fmt.Sprintf("committees_of_%d", k.N), 1)
		if t > 1 {
			for _, set := range someSubsets(r, k.N, t-1) {
				c.Eval("few/%d/%d/%d/%v", id, run, t, set)
				if v := interpolate(set, shares); v.Cmp(d.val) == 0 {
					c.Violate("few", "%s\n%s: the shares of %v alone give the secret", k.desc, what, set)
				}
			}
			// nor is any single published share, or small combination, the secret or that party's own part
			for p := range shares {
				if shares[p].Cmp(d.shares[p]) == 0 || shares[p].Cmp(d.val) == 0 {
					c.Violate("few", "%s\n%s: the new share of party %d is its old one or the secret", k.desc, what, p)
				}
			}
			for _, old := range prev {
				for p := range old {
					if old[p].Cmp(shares[p]) == 0 {
						c.Violate("fresh", "%s\n%s: party %d has the same share as after an earlier resharing", k.desc, what, p)
					}
				}
			}
			prev = append(prev, shares)
		}
		if c.Violated() {
			return
		}
	}
	if id < 4 {
		c.Sample("%s: thresholds %v, secret %x", k.desc, ts, d.val)
	}
}

// someSubsets are all subsets of a size if there are few, or else some of them.
func someSubsets(r *rand.Rand, n, size int) [][]int {
	if n <= 8 {
		return subsets(n, size)
	}
	var out [][]int
	for i := 0; i < 40; i++ {
		s := r.Perm(n)[:size]
		sort.Ints(s)
		out = append(out, s)
	}
	return out
}
