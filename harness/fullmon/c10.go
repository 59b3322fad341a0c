package fullmon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"time"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
)

// C10 monitors key generation.
var C10 = &mon.Monitor{
	Level:   "fault_enumeration",
	Rule:    "one evaluation is one party's outcome of one run of key generation, by 1 to 7 parties in consecutive runs over delaying and fragmenting networks, and by 12 and 300 in lockstep: the public key must be the sum of the points announced on the wire, equal at all parties, each announced point must be the generator times what that party drew, and the Diffie-Hellman check made with the key must see exactly the announced shares; or one receiver of a public share other than the committed one, who must fail; distinct by session, run and party",
	MinEval: 300,
	Assume:  []string{"secret shares are recognised among what the party read from the randomness source, or by their effect in the Diffie-Hellman check"},
	Run:     runC10,
}

func netOpts(r *rand.Rand, n int) simnet.Opts {
	o := simnet.Opts{N: n}
	if r.Intn(3) == 0 {
		o.MaxDelay = time.Duration(1+r.Intn(6)) * time.Millisecond
	}
	if r.Intn(4) == 0 {
		o.MaxRead = 1 + r.Intn(60)
	}
	if r.Intn(4) == 0 {
		o.Buffer = 30 + r.Intn(200)
	}
	return o
}

func describe(o simnet.Opts) string {
	return fmt.Sprintf("%d parties, delay up to %v, reads up to %d bytes, buffer %d", o.N, o.MaxDelay, o.MaxRead, o.Buffer)
}

func runC10(c *mon.Ctx) {
	c.Parallel(c.Pick(80, 800), 10, func(i int) {
		r := c.Rng("session", i)
		o := netOpts(r, []int{2, 3, 1, 4, 5, 2, 3, 6, 7, 3}[i%10])
		genKeys(c, r, o, i, c.Pick(3, 5))
	})
	for i, n := range []int{12, 300, 257}[:c.Pick(2, 3)] {
		largeKeys(c, n, i, false)
	}
	c.Parallel(c.Pick(200, 2000), 12, func(i int) {
		r := c.Rng("cheat", i)
		cheatKey(c, r, i)
	})
	c.Parallel(c.Pick(4, 40), 4, func(i int) {
		r := c.Rng("equivocate", i)
		equivocate(c, r, i)
	})
}

func genKeys(c *mon.Ctx, r *rand.Rand, o simnet.Opts, id, runs int) {
	k := newKit(c, r, o, fmt.Sprintf("session %d: %s", id, describe(o)))
	if k == nil {
		return
	}
	defer c.Begin("%s", k.desc)()
	defer k.Down()
	for run := 0; run < runs; run++ {
		what := fmt.Sprintf("run %d", run)
		degenerate := false
		if r.Intn(3) == 0 {
			// an edge share
			e := coremon.EdgeScalars()
			k.genScript(r.Intn(k.N), modN(e[r.Intn(len(e))]))
			degenerate = true
		}
		if !degenerate && r.Intn(2) == 0 {
			// shares related to each other: equal, opposite, cancelling, each the sum of those before
			s := coremon.RandScalar(r)
			acc := new(big.Int)
			how := r.Intn(4)
			for p := 0; p < k.N; p++ {
				v := s
				switch {
				case how == 1 && p%2 == 1:
					v = sub(ref.N, s)
				case how == 2 && p == k.N-1:
					v = modN(sub(bi(0), acc))
				case how == 2:
					v = coremon.RandScalar(r)
				case how == 3 && p > 0:
					v = new(big.Int).Set(acc)
				case how == 3 && p%2 == 0 && k.N > 2 && r.Intn(2) == 0:
					continue
				}
				acc = modN(add(acc, v))
				k.genScript(p, v)
			}
			c.Count("keys_of_related_shares", 1)
			what += fmt.Sprintf(" (related shares %d)", how)
			degenerate = true
		}
		label := fmt.Sprintf("key %d/%d", id, run)
		k.startLog()
		m := k.Mark()
		keys, errs := k.ger(label)
		if degenerate && simnet.Errs(errs) > 0 && k.noPanic("GenExpReveal", errs) {
			// refusing a neutral key or share would be right as well
			if fr := k.rounds(k.FramesSince(m)); k.N > 1 && len(fr) >= 2 {
				tot, neutral := ref.Inf, false
				for p := 0; p < k.N; p++ {
					a, _, err := ref.DecodePt(sentBy(fr[len(fr)-1][p]))
					if err == nil {
						tot = tot.Add(a)
						neutral = neutral || a.IsInf()
					}
				}
				if neutral || tot.IsInf() {
					c.Trivial()
					return
				}
			}
		}
		if !k.ok("GenExpReveal", errs) {
			return
		}
		fr := k.rounds(k.FramesSince(m))
		announced := make([]ref.Pt, k.N)
		scalars := make([]*big.Int, k.N)
		pk := ref.Inf
		for p := 0; p < k.N; p++ {
			log := k.Rnd[p].Log()
			if k.N == 1 {
				announced[p] = k.pt(keys[p].PublicKey())
			} else {
				if len(fr) < 2 {
					c.Violate("frames", "%s\n%s: %d rounds", k.desc, what, len(fr))
					return
				}
				a, _, err := ref.DecodePt(sentBy(fr[len(fr)-1][p]))
				if err != nil || !a.OnCurve() {
					c.Violate("announced", "%s\n%s: party %d reveals no group element: %x", k.desc, what, p, head(sentBy(fr[1][p])))
					return
				}
				announced[p] = a
				for q := 0; q < k.N; q++ {
					if f := fr[len(fr)-1][p][q]; f != nil && !bytes.Equal(f.Data, sentBy(fr[len(fr)-1][p])) {
						c.Violate("announced", "%s\n%s: party %d reveals different things", k.desc, what, p)
					}
				}
			}
			if scalars[p] = dlog(announced[p], log); scalars[p] == nil {
				c.Violate("share", "%s\n%s: the share announced by party %d, %v, is not the generator times anything it drew", k.desc, what, p, announced[p])
				return
			}
			pk = pk.Add(announced[p])
		}
		for p := 0; p < k.N; p++ {
			if q := k.pt(keys[p].PublicKey()); !q.Eq(pk) {
				c.Violate("pk", "%s\n%s: party %d has the public key %v, the sum of the announced shares is %v", k.desc, what, p, q, pk)
			}
			if keys[p].Label() != label {
				c.Violate("label", "%s\n%s: party %d has a key labelled %q instead of %q", k.desc, what, p, keys[p].Label(), label)
			}
			c.Eval("%d/%d/%d", id, run, p)
		}
		if c.Violated() {
			return
		}
		// the shares held are the announced ones
		u := ref.Base(coremon.RandScalar(r))
		m = k.Mark()
		errs = k.AllCut(func(p int) error {
			return arith.CheckDH(coremon.FromRef(k.g, u), coremon.FromRef(k.g, u.Mul(sum(scalars))), k.g, keys[p])
		})
		if !k.ok("CheckDH of the new key", errs) {
			return
		}
		if k.N > 1 {
			fr = k.rounds(k.FramesSince(m))
			tv := ref.Inf
			for p := 0; p < k.N; p++ {
				_, rest, err1 := ref.DecodePt(sentBy(fr[1][p]))
				b, _, err2 := ref.DecodePt(rest)
				if err1 != nil || err2 != nil {
					c.Violate("frames", "%s\nCheckDH sends %x", k.desc, head(sentBy(fr[1][p])))
					return
				}
				tv = tv.Add(b)
			}
			for p := 0; p < k.N; p++ {
				got, _, err := ref.DecodePt(sentBy(fr[2][p]))
				if want := tv.Mul(scalars[p]); err != nil || !got.Eq(want) {
					c.Violate("share", "%s\n%s: party %d uses another share than the one it announced", k.desc, what, p)
				}
				c.Count("shares_seen_in_use", 1)
			}
		}
		if id < 3 {
			c.Sample("%s, %s: key %v", k.desc, what, pk)
		}
	}
}

// cheatKey lets a party reveal another share than the committed one.
func cheatKey(c *mon.Ctx, r *rand.Rand, id int) {
	o := netOpts(r, 2+id%4)
	bad := r.Intn(o.N)
	kind := id % 11
	var victims []int
	for p := 0; p < o.N; p++ {
		if p != bad && (r.Intn(2) == 0) {
			victims = append(victims, p)
		}
	}
	if len(victims) == 0 || id%3 == 0 {
		victims = without(o.N, []int{bad})
	}
	names := []string{"another point revealed", "the opposite point revealed", "the neutral element revealed", "the share plus the generator revealed", "the share of a victim revealed", "another point committed", "nothing committed", "a prefix committed", "noise committed", "another point committed, with further bytes", "a point with the same y revealed"}
	desc := fmt.Sprintf("cheat %d: %s; party %d cheats on %v: %s", id, describe(o), bad, victims, names[kind])
	k := newKit(c, r, o, desc)
	if k == nil {
		return
	}
	defer c.Begin("%s", desc)()
	defer k.Down()
	first := int64(-1)
	other := ref.Base(coremon.RandScalar(r))
	var mx sync.Mutex
	seen := map[uint16][]byte{} // what the victims commit to, for copying
	k.SetOnFrame(func(f *simnet.Frame) simnet.Verdict {
		mx.Lock()
		defer mx.Unlock()
		if first < 0 {
			first = f.Round
		}
		if f.Round < first {
			first = f.Round
		}
		rd := f.Round - first
		if rd == 0 && len(f.Data) > 8 {
			seen[f.From] = append([]byte{}, f.Data[8:]...)
		}
		if int(f.From) != bad || !has(victims, int(f.To)) {
			return simnet.Verdict{}
		}
		d := append([]byte{}, f.Data...)
		if rd == 1 && (kind < 5 || kind == 10) {
			own, _, err := ref.DecodePt(d)
			if err != nil {
				return simnet.Verdict{}
			}
			switch kind {
			case 0:
				d = other.Encode()
			case 1:
				d = own.Neg().Encode()
			case 2:
				d = ref.Inf.Encode()
			case 3:
				d = own.Add(ref.G).Encode()
			case 10:
				d = own.Mul(ref.Lambda).Encode()
			case 4:
				if v, ok := seen[f.To]; ok {
					d = v
				} else {
					d = other.Encode()
				}
			}
		} else if rd == 0 && kind >= 5 && kind < 10 && len(d) > 8 {
			switch kind {
			case 8:
				d = d[:8+[]int{1, 2, 33, 68, len(d) - 8, len(d) - 9}[r.Intn(6)]%(len(d)-7)]
				r.Read(d[8:])
				if pat := r.Intn(3); pat > 0 {
					for i := 8; i < len(d); i++ {
						d[i] = byte(-(pat - 1))
					}
				}
				if len(d) > 8 && r.Intn(2) == 0 {
					d[8] = []byte{0, 1, 0xff, 0x80, 32}[r.Intn(5)]
				}
				binary.LittleEndian.PutUint32(d, uint32(len(d)-8))
			case 9:
				e := other.Encode()
				x := make([]byte, 1+r.Intn(40))
				r.Read(x)
				d = append(append(append(d[:0], byte(len(e)), 0, 0, 0, byte(len(x)), 0, 0, 0), e...), x...)
			case 5:
				e := other.Encode()
				d = append(append(d[:0], byte(len(e)), 0, 0, 0, 0, 0, 0, 0), e...)
			case 6:
				d = make([]byte, 8)
			case 7:
				l := 1 + r.Intn(len(d)-9)
				d = append([]byte{byte(l), 0, 0, 0, 0, 0, 0, 0}, d[8:8+l]...)
			}
		} else {
			return simnet.Verdict{}
		}
		return simnet.Verdict{Replace: [][]byte{simnet.RawFrame(f.Pid, f.Round, d)}}
	})
	k.startLog()
	_, errs := k.ger("x")
	if !k.noPanic("GenExpReveal", errs) {
		return
	}
	for p, e := range errs {
		if p == bad {
			continue
		}
		if has(victims, p) {
			c.Eval("cheat/%d/%d", id, p)
			if e == nil {
				c.Violate("accepted", "%s\nparty %d does not notice", desc, p)
			}
		} else if e != nil && (kind < 5 || kind == 10) {
			// they only saw honest messages in the last round
			c.Violate("failed", "%s\nparty %d, which was told the truth, fails: %v", desc, p, e)
		}
	}
	c.Count("cheats", 1)
}

// equivocate lets a party commit to and reveal different shares to different parties.
func equivocate(c *mon.Ctx, r *rand.Rand, id int) {
	o := netOpts(r, 3+id%3)
	desc := fmt.Sprintf("equivocation %d: %s; party 0 commits and reveals another share to party 1 than to the others", id, describe(o))
	k := newKit(c, r, o, desc)
	if k == nil {
		return
	}
	defer c.Begin("%s", desc)()
	defer k.Down()
	e := ref.Base(coremon.RandScalar(r)).Encode()
	n := 0
	var mx sync.Mutex
	k.SetOnFrame(func(f *simnet.Frame) simnet.Verdict {
		if f.From != 0 || f.To != 1 {
			return simnet.Verdict{}
		}
		mx.Lock()
		defer mx.Unlock()
		n++
		d := e
		if n == 1 {
			d = append([]byte{byte(len(e)), 0, 0, 0, 0, 0, 0, 0}, e...)
		}
		return simnet.Verdict{Replace: [][]byte{simnet.RawFrame(f.Pid, f.Round, d)}}
	})
	keys, errs := k.ger("x")
	if !k.noPanic("GenExpReveal", errs) {
		return
	}
	c.Trivial()
	if simnet.Errs(errs) > 0 {
		return
	}
	for p := 2; p < k.N; p++ {
		if !k.pt(keys[p].PublicKey()).Eq(k.pt(keys[1].PublicKey())) {
			c.Violate("equivocation", "%s\nall parties succeed, party 1 with the key %v, party %d with %v", desc, k.pt(keys[1].PublicKey()), p, k.pt(keys[p].PublicKey()))
			return
		}
	}
}
