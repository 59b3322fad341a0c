package roundmon

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"aaa.vmon/mon"
	"aaa.vmon/simnet"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// C21 makes parties fail in rounds.
var C21 = &mon.Monitor{
	Level:   "fault_enumeration",
	Rule:    "one evaluation is one call of Round at one live party in a round for which a set of faults was planned (peers crashed earlier, links closed, links that break at one of the writes or flushes of the sender, frames truncated and closed, emptied, too short, with a wrong or earlier round (also one that differs in high bits only), a wrong sender, a wrong length, data that the check rejects; several at once, in every position, in consecutive rounds, with delays and fragmentation): the error and its list of missing parties have to be exactly the planned ones, the check has to see the data of all the others, and rounds without faults have to succeed again; also one real party among 300 played by the monitor; distinct by session, party and round",
	MinEval: 500,
	Run:     runC21,
}

const (
	fNone = iota
	fReject
	fWrongRound
	fOldRound
	fWrongPid
	fShort
	fEmpty
	fTruncClose
	fHeaderClose
	fLongClose
	fHugeClose
	fDropClose
	fNegative
	fKinds
)

var faultNames = []string{"none", "rejected by check", "other round", "replayed frame", "other sender", "frame too short", "empty frame", "truncated and closed", "header and closed", "length too long and closed",
	"huge length and closed", "closed instead", "length with the sign bit"}

// closes tells whether the link is gone after the fault.
func closes(k int) bool { return k >= fTruncClose }

func runC21(c *mon.Ctx) {
	for i, b := range [][2]int{{300, 3}, {270, 261}, {520, 513}, {300, 255}}[:c.Pick(2, 4)] {
		bigCommittee(c, b[0], b[1], i, true)
	}
	n := c.Pick(560, 8000)
	c.Parallel(n, 8, func(i int) {
		r := c.Rng("session", i)
		o := simnet.Opts{N: []int{2, 3, 3, 4, 4, 5, 6, 7}[i%8], Seed: r.Int63()}
		if r.Intn(3) == 0 {
			o.MaxDelay = time.Duration(1+r.Intn(5)) * time.Millisecond
		}
		if r.Intn(3) == 0 {
			o.MaxRead = 1 + r.Intn(40)
		}
		failing(c, r, o, i, c.Pick(10, 14))
	})
	silent(c)
}

type link struct{ from, to int }

func failing(c *mon.Ctx, r *rand.Rand, o simnet.Opts, id, rounds int) {
	n := o.N
	var mx sync.Mutex
	now := map[link]int{} // faults of the running round
	last := map[link][]byte{}
	o.OnFrame = func(f *simnet.Frame) simnet.Verdict {
		mx.Lock()
		defer mx.Unlock()
		l := link{int(f.From), int(f.To)}
		old := last[l]
		last[l] = f.Raw
		raw := append([]byte{}, f.Raw...)
		le := binary.LittleEndian
		switch now[l] {
		case fWrongRound:
			off := []int64{1, -1, 2, -2, 1 << 8, -1 << 8, 1 << 16, 1 << 31, 1 << 32, -1 << 32, 1 << 48, -1 << 63}[(f.Seq+int(f.From))%12]
			le.PutUint64(raw[10:], uint64(f.Round+off))
			return simnet.Verdict{Replace: [][]byte{raw}}
		case fOldRound:
			if old == nil {
				le.PutUint64(raw[10:], uint64(f.Round-1))
				old = raw
			}
			return simnet.Verdict{Replace: [][]byte{old}}
		case fWrongPid:
			le.PutUint16(raw[8:], uint16((int(f.From) + 1 + f.Seq%(n+2))))
			if f.Seq%4 == 0 {
				le.PutUint16(raw[8:], f.From+256)
			}
			if le.Uint16(raw[8:]) == f.From {
				le.PutUint16(raw[8:], f.From+1)
			}
			return simnet.Verdict{Replace: [][]byte{raw}}
		case fShort:
			k := 1 + f.Seq%9
			le.PutUint64(raw, uint64(k))
			return simnet.Verdict{Replace: [][]byte{raw[:8+k]}}
		case fEmpty:
			return simnet.Verdict{Replace: [][]byte{make([]byte, 8)}}
		case fTruncClose:
			return simnet.Verdict{Replace: [][]byte{raw[:8+f.Seq*5%(len(raw)-8)]}, Close: true}
		case fHeaderClose:
			return simnet.Verdict{Replace: [][]byte{raw[:f.Seq%9]}, Close: true}
		case fLongClose:
			le.PutUint64(raw, uint64(len(raw)-8+1+f.Seq*f.Seq))
			return simnet.Verdict{Replace: [][]byte{raw}, Close: true}
		case fHugeClose:
			le.PutUint64(raw, uint64(1)<<uint(30+f.Seq%33))
			return simnet.Verdict{Replace: [][]byte{raw}, Close: true}
		case fNegative:
			le.PutUint64(raw, uint64(1)<<63+uint64(len(raw)-8))
			return simnet.Verdict{Replace: [][]byte{raw}, Close: true}
		case fDropClose:
			return simnet.Verdict{Drop: true, Close: true}
		}
		return simnet.Verdict{}
	}
	desc := fmt.Sprintf("session %d: %d parties, delay up to %v, reads up to %d bytes", id, n, o.MaxDelay, o.MaxRead)
	defer c.Begin("%s", desc)()
	s, err := simnet.NewSession(o)
	if err != nil {
		c.Violate("start", "%s\n%v", desc, err)
		return
	}
	defer s.Down()
	sess := r.Int63n(1 << 30)
	dead := make([]bool, n)
	gone := map[link]bool{} // closed links
	for k := 0; k < rounds; k++ {
		// plan
		mx.Lock()
		now = map[link]int{}
		mx.Unlock()
		var what []string
		plan := map[link]int{}
		alive := 0
		for p := range dead {
			if !dead[p] {
				alive++
			}
		}
		if r.Intn(10) == 0 && alive > 1 && k > 0 {
			p := r.Intn(n)
			if !dead[p] {
				dead[p] = true
				alive--
				s.Cut(uint16(p))
				what = append(what, fmt.Sprintf("party %d crashes before", p))
			}
		}
		if r.Intn(12) == 0 {
			l := link{r.Intn(n), r.Intn(n)}
			if l.from != l.to {
				s.CutLink(uint16(l.from), uint16(l.to))
				gone[l] = true
				what = append(what, fmt.Sprintf("link %d to %d closed before", l.from, l.to))
			}
		}
		if r.Intn(3) > 0 {
			for f := 1 + r.Intn(3); f > 0; f-- {
				kind := 1 + r.Intn(fTruncClose-1)
				if r.Intn(5) == 0 {
					kind = fTruncClose + r.Intn(fKinds-fTruncClose)
				}
				from := r.Intn(n)
				all := r.Intn(3) == 0
				for to := 0; to < n; to++ {
					l := link{from, to}
					if to == from || dead[from] || dead[to] || gone[l] || plan[l] != 0 || !all && r.Intn(2) == 0 {
						continue
					}
					plan[l] = kind
					what = append(what, fmt.Sprintf("%d to %d: %s", from, to, faultNames[kind]))
				}
			}
		}
		var armed []link
		if r.Intn(8) == 0 {
			l := link{r.Intn(n), r.Intn(n)}
			if l.from != l.to && !dead[l.from] && !dead[l.to] && !gone[l] && plan[l] == 0 {
				at := 1 + r.Intn(4)
				once := r.Intn(2) == 0
				s.Break(uint16(l.from), uint16(l.to), at, once)
				armed = append(armed, l)
				what = append(what, fmt.Sprintf("link %d to %d breaks at operation %d of its sender (only that one fails: %v)", l.from, l.to, at, once))
			}
		}
		mx.Lock()
		for l, f := range plan {
			if f != fReject {
				now[l] = f
			}
		}
		mx.Unlock()
		var live []int
		for p := range dead {
			if !dead[p] {
				live = append(live, p)
			}
		}
		errs := make([]error, n)
		got := make([]map[int][][]byte, n)
		perrs := s.Some(live, func(me int) error {
			got[me] = map[int][][]byte{}
			var send [][]byte
			if (me+k)%2 == 0 {
				send = [][]byte{payload(sess, me, -1, k, 40)}
			} else {
				for q := 0; q < n; q++ {
					send = append(send, payload(sess, me, q, k, 30+q))
				}
			}
			errs[me] = s.Srv[me].Round(send, func(pid uint16, data []byte) error {
				got[me][int(pid)] = append(got[me][int(pid)], append([]byte{}, data...))
				if plan[link{int(pid), me}] == fReject {
					return errors.New("rejected")
				}
				return nil
			})
			return nil
		})
		d := fmt.Sprintf("%s\nround %d, dead %v, closed %v, faults %v", desc, k, dead, gone, what)
		if id < 4 && len(what) > 0 {
			c.Sample("%s", d)
		}
		if p := simnet.Panicked(perrs); p != nil {
			c.Violate("panic", "%s\n%v", d, p)
			return
		}
		for _, l := range armed {
			if s.Mend(uint16(l.from), uint16(l.to)) {
				gone[l] = true
				c.Count("links_broken_while_sending", 1)
			}
		}
		for _, me := range live {
			c.Eval("%d/%d/%d", id, k, me)
			// what has to be missing here
			var want []int
			for q := 0; q < n; q++ {
				if q == me {
					continue
				}
				in, out := link{q, me}, link{me, q}
				recv := dead[q] || gone[in] || plan[in] != fNone
				if recv || gone[out] {
					want = append(want, q)
				}
				ok := !dead[q] && !gone[in] && (plan[in] == fNone || plan[in] == fReject)
				calls := got[me][q]
				if ok && len(calls) != 1 || !ok && len(calls) != 0 {
					c.Violate("calls", "%s\nparty %d: %d check calls for party %d", d, me, len(calls), q)
				}
				if ok && len(calls) == 1 {
					w := payload(sess, q, -1, k, 40)
					if (q+k)%2 != 0 {
						w = payload(sess, q, me, k, 30+me)
					}
					if !bytes.Equal(w, calls[0]) {
						c.Violate("bytes", "%s\nparty %d: data of party %d is %x, not %x", d, me, q, calls[0], w)
					}
				}
			}
			if len(got[me][me]) > 0 {
				c.Violate("calls", "%s\nparty %d: a check call for itself", d, me)
			}
			if len(want) == 0 {
				c.Count("good_rounds", 1)
				if errs[me] != nil {
					c.Violate("spurious", "%s\nparty %d fails without reason: %v", d, me, errs[me])
				}
				continue
			}
			c.Count("failing_rounds", 1)
			for _, w := range want {
				k := plan[link{w, me}]
				switch {
				case dead[w]:
					c.Count("fault: crashed peer", 1)
				case k != 0:
					c.Count("fault: "+faultNames[k], 1)
				default:
					c.Count("fault: closed link", 1)
				}
			}
			if errs[me] == nil {
				c.Violate("success", "%s\nparty %d succeeds although %v fail", d, me, want)
				continue
			}
			missing, ok := missingOf(errs[me])
			if !ok {
				c.Violate("missing", "%s\nparty %d: the error does not tell who is missing: %v", d, me, errs[me])
			} else if fmt.Sprint(missing) != fmt.Sprint(want) {
				c.Violate("missing", "%s\nparty %d: missing %v, has to be %v: %v", d, me, missing, want, errs[me])
			}
		}
		for l, f := range plan {
			if closes(f) {
				gone[l] = true
			}
		}
		if c.Violated() {
			return
		}
	}
	c.Count("sessions", 1)
	s.All(func(me int) error { s.Srv[me].Stop(); return nil })
}

func missingOf(err error) ([]int, bool) {
	var re *rsync.RoundError
	if !errors.As(err, &re) {
		return nil, false
	}
	var out []int
	for _, m := range re.Missing() {
		out = append(out, int(m))
	}
	sort.Ints(out)
	return out, true
}

// silent has a party that stays connected but says nothing.
func silent(c *mon.Ctx) {
	defer c.Begin("a silent party")()
	var mx sync.Mutex
	drop := false
	o := simnet.Opts{N: 3, Seed: 1, OnFrame: func(f *simnet.Frame) simnet.Verdict {
		mx.Lock()
		defer mx.Unlock()
		return simnet.Verdict{Drop: drop && f.From == 2}
	}}
	s, err := simnet.NewSessionDuration(o, 400*time.Millisecond)
	if err != nil {
		c.Violate("start", "%v", err)
		return
	}
	defer s.Down()
	mx.Lock()
	drop = true
	mx.Unlock()
	c.Eval("silent")
	done := make(chan error, 3)
	for p := 0; p < 2; p++ {
		go func(p int) {
			done <- s.Srv[p].Round([][]byte{{1}}, func(uint16, []byte) error { return nil })
		}(p)
	}
	timeout := time.After(6 * time.Second)
	for p := 0; p < 2; p++ {
		select {
		case err := <-done:
			if err == nil {
				c.Violate("silent-success", "a round succeeds although a party never sent anything")
			} else if m, _ := missingOf(err); len(m) != 1 || m[0] != 2 {
				c.Violate("silent-missing", "a round with a silent party reports %v missing: %v", m, err)
			}
		case <-timeout:
			c.Violate("silent", "6 s after the start of a round of 0.4 s, a party still waits for one that stays silent")
			return
		}
	}
}
