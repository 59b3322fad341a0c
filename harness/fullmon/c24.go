package fullmon

import (
	"fmt"
	"math/big"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
)

// C24 monitors the signing equation.
var C24 = &mon.Monitor{
	Rule:    "one evaluation is one party's signature on one message (zero, one, around the order, overlong, random) by 1 to 5 parties with every threshold, in some cases after parties crashed: r must be the hash of the public nonce and s solve s*tau = m*rho + r*eta with the secrets of the presignature, which the monitor reads from what the parties drew and from the commitments, opened under the commitment key; all parties must agree; distinct by session, message and party",
	MinEval: 300,
	Run:     runC24,
}

// C25 verifies signatures.
var C25 = &mon.Monitor{
	Rule:    "one evaluation is one signature of one party verified with standard ECDSA under the public key of the secret shares drawn in Init, which every party must hold; a signature that does not verify must at least be the one that the known finding describes (r the hash of a nonce of the presignature, s a solution of the signing equation); distinct by session, message and party",
	MinEval: 10,
	Run:     func(c *mon.Ctx) { signing(c, c.Pick(32, 200), true) },
}

func runC24(c *mon.Ctx) { signing(c, c.Pick(90, 900), false) }

func signing(c *mon.Ctx, sessions int, ecdsa bool) {
	es := coremon.EdgeScalars()
	c.Parallel(sessions, 8, func(i int) {
		r := c.Rng("session", i)
		n := size(c, i, 3, 2, 4, 1, 5, 3, 2)
		o := netOpts(r, n)
		o.MaxDelay /= 4
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		w := k.signers(r)
		if w == nil {
			return
		}
		live := k.alive()
		for p := 0; ecdsa && p < k.N; p++ {
			if q, _ := keyPoints(k, w.proto[p]); q != nil {
				c.Count("public_keys_compared", 1)
				if !q.Eq(w.pk) {
					c.Violate("key", "%s\nafter Init party %d has the public key %v, the secret shares drawn belong to %v", k.desc, p, *q, w.pk)
					return
				}
			}
		}
		var prs []*presigned
		for j := 0; j < c.Pick(3, 5); j++ {
			if j == 0 || r.Intn(2) == 0 {
				// presignatures in advance or one by one
				for ahead := []int{0, 0, 1, 3}[r.Intn(4)]; len(prs) <= j+ahead; {
					pr := w.presign(1 + (i/7+len(prs))%n)
					if pr == nil {
						return
					}
					prs = append(prs, pr)
				}
			}
			for len(prs) <= j {
				pr := w.presign(1 + r.Intn(n))
				if pr == nil {
					return
				}
				prs = append(prs, pr)
			}
			pr := prs[j]
			m := coremon.RandScalar(r)
			if r.Intn(2) == 0 {
				m = es[r.Intn(len(es))]
			}
			if j == c.Pick(3, 5)-1 && n > 1 {
				// the last one by fewer parties
				for len(live) > pr.t {
					x := r.Intn(len(live))
					k.Cut(uint16(live[x]))
					live = append(append([]int{}, live[:x]...), live[x+1:]...)
				}
			}
			what := fmt.Sprintf("message %x, threshold %d, parties %v", m, pr.t, live)
			m0 := new(big.Int).Set(m)
			sigs, errs := w.sign(live, m)
			if !k.noPanic("Sign", errs) {
				return
			}
			for _, p := range live {
				if errs[p] != nil || sigs[p] == nil {
					c.Violate("failed", "%s\n%s: Sign fails at party %d: %v", k.desc, what, p, errs[p])
					return
				}
				ps := parts(sigs[p])
				if len(ps) != 2 || ps[0] == nil || ps[1] == nil {
					c.Violate("parts", "%s\n%s: the signature of party %d does not consist of two numbers: %+v", k.desc, what, p, sigs[p])
					return
				}
				rr, s := ps[0], ps[1]
				c.Eval("%d/%d/%d", i, j, p)
				if ecdsa {
					c.Count("signatures_verified", 1)
					if ref.VerifyECDSA(w.pk, m0, rr, s) {
						c.Count("valid_ecdsa", 1)
						continue
					}
					// what is known: r is a hash, s solves another equation
					_, _, _, own := pr.roles(m0, rr, s)
					switch {
					case !pr.isNonce(rr):
						c.Violate("r", "%s\n%s: party %d has r = %x, which belongs to no nonce of the presignature; the signature does not verify under %v", k.desc, what, p, rr, w.pk)
					case !own || s.Sign() < 0 || s.Cmp(ref.N) >= 0:
						c.Violate("s", "%s\n%s: party %d has r = %x, s = %x, which is neither an ECDSA signature under %v nor solves the signing equation", k.desc, what, p, rr, s, w.pk)
					default:
						c.Violate("not-ecdsa", "%s\n%s: r = %x, s = %x does not verify under %v", k.desc, what, rr, s, w.pk)
					}
					continue
				}
				if !pr.isNonce(rr) {
					c.Violate("r", "%s\n%s: party %d has r = %x, the public keys of the presignature's secrets have the hashes %x", k.desc, what, p, rr, pr.hashes)
				}
				if w.changed[p] {
					c.Violate("message", "%s\n%s: Sign of party %d changes the message of its caller", k.desc, what, p)
				}
				if _, _, _, ok := pr.roles(m0, rr, s); s.Sign() < 0 || s.Cmp(ref.N) >= 0 || !ok {
					c.Violate("equation", "%s\n%s: party %d has r = %x, s = %x, which do not solve the equation with the secrets %x", k.desc, what, p, rr, s, pr.val)
				}
				if pr.named != nil {
					c.Count("equations_by_name", 1)
					if !pr.solved(m0, rr, s) {
						c.Violate("equation", "%s\n%s: party %d has r = %x, s = %x, which do not solve the equation with the secrets %x", k.desc, what, p, rr, s, pr.named)
					}
				}
				if q := parts(sigs[live[0]]); q[0].Cmp(rr) != 0 || q[1].Cmp(s) != 0 {
					c.Violate("agree", "%s\n%s: parties %d and %d have different signatures", k.desc, what, live[0], p)
				}
			}
			if c.Violated() {
				return
			}
			if i < 5 && j == 0 {
				c.Sample("%s: %s", k.desc, what)
			}
		}
		c.Count("presignatures", int64(len(prs)))
	})
}
