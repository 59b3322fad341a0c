package fullmon

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// C15 looks for private values on the wire.
var C15 = &mon.Monitor{
	Rule:    "one evaluation is one party in one protocol run: no message of it contains any value it drew (share, commitment randomness, polynomial coefficients, blinding values, masks) or any evaluation meant for another recipient, as bytes in either order, negated, by half or as text; the evaluations it sends together with its share are a polynomial of exactly the degree of the threshold; multiplication replies, decrypted by the monitor, are masked; published shares are those of the revealed secret only; distinct by session, operation and party",
	MinEval: 600,
	Assume:  []string{"private values are those read from the randomness source, and what the monitor computes from them; with threshold 1 the evaluations are the share itself"},
	Run:     runC15,
}

// needle is a private value to look for.
type needle struct {
	what string
	v    *big.Int
	to   int // the only party that may get it, or -1
}

func reversed(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func forms(v *big.Int) [][]byte {
	b := v.Bytes()
	if len(b) < 12 {
		return nil // not recognisable
	}
	out := [][]byte{b, reversed(b), []byte(hex.EncodeToString(b)), []byte(v.String())}
	if len(b) > 30 {
		// a half of it
		out = append(out, b[:16], b[len(b)-16:])
	}
	if len(b) > 30 && v.Cmp(ref.N) < 0 {
		out = append(out, new(big.Int).Sub(ref.N, v).Bytes())
	}
	return out
}

// search looks for the needles in frames of one party.
func (k *kit) search(what string, p int, fs []*simnet.Frame, ns []needle) {
	for _, n := range ns {
		fm := forms(n.v)
		for _, f := range fs {
			if int(f.From) != p || n.to == int(f.To) {
				continue
			}
			for _, b := range fm {
				if bytes.Contains(f.Data, b) {
					k.c.Violate("leak", "%s\n%s: party %d sends its %s (%x) to party %d in round %d\n%x", k.desc, what, p, n.what, n.v, f.To, f.Round, head(f.Data))
					return
				}
			}
		}
	}
	k.c.Count("private_values_looked_for", int64(len(ns)))
}

// drawn makes needles of everything a party read.
func (k *kit) drawn(p int) []needle {
	var ns []needle
	for i, b := range k.Rnd[p].Log() {
		if len(b) < 16 {
			continue
		}
		x := new(big.Int).SetBytes(b)
		ns = append(ns, needle{fmt.Sprintf("value drawn as number %d", i), x, -1})
		if len(b) == 32 {
			ns = append(ns, needle{fmt.Sprintf("value drawn as number %d, plus one", i), add(x, bi(1)), -1})
			if x.Cmp(ref.N) >= 0 {
				ns = append(ns, needle{fmt.Sprintf("value drawn as number %d, reduced", i), modN(x), -1})
			}
		}
	}
	return ns
}

func runC15(c *mon.Ctx) {
	paillierKeys(5, 1024)
	// the degree of the polynomials for higher thresholds
	large := [][2]int{{17, 17}, {7, 7}, {8, 6}, {10, 9}}
	if c.Pick(0, 1) == 1 {
		large = append(large, [2]int{12, 12}, [2]int{9, 9}, [2]int{14, 8}, [2]int{20, 20})
	}
	c.Parallel(len(large), 4, func(i int) {
		r := c.Rng("large", i)
		n, t := large[i][0], large[i][1]
		k := newKit(c, r, simnet.Opts{N: n}, fmt.Sprintf("large session %d: %d parties, threshold %d", i, n, t))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		x := k.deal("x")
		if x == nil || x.val == nil {
			return
		}
		m := k.Mark()
		_, errs := k.reshare(x.ads, t)
		if !k.ok("Reshare", errs) {
			return
		}
		fs := k.FramesSince(m)
		shares, nd := k.sharing("resharing", k.rounds(fs), x.shares, t)
		if shares == nil {
			return
		}
		for p := range nd {
			k.search("resharing", p, fs, append(append(nd[p], needle{"share", x.shares[p], -1}), k.drawn(p)...))
			c.Eval("large/%d/%d", i, p)
		}
		c.Count("large_committees", 1)
	})
	// and for the most unusual coefficients
	odd := []*big.Int{bi(0), bi(1), sub(ref.N, bi(2)), sub(ref.N, bi(3)), bi(2), sub(ref.N, bi(4))}
	c.Parallel(c.Pick(18, 90), 8, func(i int) {
		r := c.Rng("odd", i)
		n := 2 + i%3
		t := 2 + r.Intn(n-1)
		v := odd[i/3%len(odd)]
		k := newKit(c, r, simnet.Opts{N: n}, fmt.Sprintf("odd session %d: %d parties, threshold %d, all but the shares drawn as %x", i, n, t, v))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		x := k.deal("x")
		if x == nil || x.val == nil {
			return
		}
		m := k.Mark()
		block := v.FillBytes(make([]byte, 32))
		for p := 0; p < n; p++ {
			k.Rnd[p].Script(bytes.Repeat(block, 500))
		}
		_, errs := k.reshare(x.ads, t)
		if !k.ok("Reshare", errs) {
			return
		}
		if shares, _ := k.sharing("resharing", k.rounds(k.FramesSince(m)), x.shares, t); shares == nil {
			return
		}
		for p := 0; p < n; p++ {
			c.Eval("odd/%d/%d", i, p)
		}
		c.Count("odd_coefficients", 1)
	})
	c.Parallel(c.Pick(90, 900), 8, func(i int) {
		r := c.Rng("session", i)
		o := simnet.Opts{N: size(c, i, 3, 2, 4, 5, 3, 4)}
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		if i%6 == 5 {
			k.secretsOfSigning(r, i)
			return
		}
		k.secrets(r, i)
	})
}

// sharing takes apart what was sent in a resharing with the given additive shares, and returns the
// new shares of the parties.
func (k *kit) sharing(what string, fr [][][]*simnet.Frame, old []*big.Int, t int) ([]*big.Int, [][]needle) {
	c := k.c
	if len(fr) < 6 {
		c.Violate("frames", "%s\n%s: %d rounds", k.desc, what, len(fr))
		return nil, nil
	}
	rd := fr[len(fr)-2]
	ev := make([][]*big.Int, k.N)
	needles := make([][]needle, k.N)
	for p := 0; p < k.N; p++ {
		ev[p] = make([]*big.Int, k.N)
		xs, ys := []int64{0}, []*big.Int{old[p]}
		for q := 0; q < k.N; q++ {
			if q == p {
				continue
			}
			f := rd[p][q]
			if f == nil {
				c.Violate("frames", "%s\n%s: no evaluation from %d to %d", k.desc, what, p, q)
				return nil, nil
			}
			e, rho, err := evals(f.Data)
			if err != nil {
				c.Violate("frames", "%s\n%s: strange evaluation from %d to %d: %x", k.desc, what, p, q, head(f.Data))
				return nil, nil
			}
			ev[p][q] = e
			xs, ys = append(xs, int64(q+1)), append(ys, e)
			if t > 1 {
				needles[p] = append(needles[p], needle{fmt.Sprintf("evaluation for party %d", q), e, q})
			}
			needles[p] = append(needles[p], needle{fmt.Sprintf("randomness of the evaluation for party %d", q), rho, q})
		}
		// n points: they lie on a polynomial of degree t-1, and on none of lower degree
		if divided(xs[:t], ys[:t]).Sign() == 0 {
			c.Violate("degree", "%s\n%s: the polynomial of party %d has a degree below %d", k.desc, what, p, t-1)
		}
		if t < len(xs) {
			for i := 0; i+t < len(xs); i++ {
				if divided(xs[i:i+t+1], ys[i:i+t+1]).Sign() != 0 {
					c.Violate("degree", "%s\n%s: the evaluations of party %d lie on no polynomial of degree %d through its share", k.desc, what, p, t-1)
					break
				}
			}
		}
		// its own evaluation
		own := bi(0)
		for i := 0; i < t; i++ {
			num, den := bi(1), bi(1)
			for j := 0; j < t; j++ {
				if j != i {
					num.Mul(num, bi(int64(p+1)-xs[j]))
					den.Mul(den, bi(xs[i]-xs[j]))
				}
			}
			den.ModInverse(modN(den), ref.N)
			own.Add(own, mul(mul(num, den), ys[i]))
		}
		ev[p][p] = modN(own)
		if t > 1 {
			needles[p] = append(needles[p], needle{"own evaluation", ev[p][p], -1})
		}
	}
	out := make([]*big.Int, k.N)
	for q := range out {
		out[q] = bi(0)
		for p := range ev {
			out[q] = modN(add(out[q], ev[p][q]))
		}
		if t > 1 {
			needles[q] = append(needles[q], needle{"new share", out[q], -1})
		}
	}
	return out, needles
}

func (k *kit) secrets(r *rand.Rand, id int) {
	c := k.c
	done := func(what string) {
		for p := 0; p < k.N; p++ {
			c.Eval("%d/%s/%d", id, what, p)
		}
		c.Count(what, 1)
	}
	// key generation and the Diffie-Hellman check
	k.startLog()
	m := k.Mark()
	keys, errs := k.ger("x")
	if !k.ok("GenExpReveal", errs) {
		return
	}
	secrets := make([][]needle, k.N) // everything private so far
	scan := func(what string, from int) {
		fs := k.FramesSince(from)
		for p := 0; p < k.N; p++ {
			secrets[p] = append(secrets[p], k.drawn(p)...)
			k.search(what, p, fs, secrets[p])
		}
		k.startLog()
		done(what)
	}
	scan("key generation", m)
	m = k.Mark()
	e := coremon.RandScalar(r)
	errs = k.AllCut(func(p int) error {
		return arith.CheckDH(coremon.FromRef(k.g, ref.Base(e)), k.g.ScalarMult(keys[p].PublicKey(), e), k.g, keys[p])
	})
	if !k.ok("CheckDH", errs) {
		return
	}
	scan("Diffie-Hellman check", m)
	// secrets
	m = k.Mark()
	x := k.deal("x")
	if x == nil || x.val == nil {
		if x != nil {
			c.Violate("share", "%s\na commitment opens to nothing its party drew", k.desc)
		}
		return
	}
	for p := range x.shares {
		secrets[p] = append(secrets[p], needle{"share", x.shares[p], -1}, needle{"commitment randomness", x.rs[p], -1})
	}
	scan("generation", m)
	var tds []*arith.TDSecret
	var shares []*big.Int
	t := 2 + r.Intn(k.N-1)
	for rep := 0; rep < 2; rep++ {
		m = k.Mark()
		tds, errs = k.reshare(x.ads, t)
		if !k.ok("Reshare", errs) {
			return
		}
		var nd [][]needle
		shares, nd = k.sharing("resharing", k.rounds(k.FramesSince(m)), x.shares, t)
		if shares == nil {
			return
		}
		for p := range nd {
			secrets[p] = append(secrets[p], nd[p]...)
		}
		scan("resharing", m)
		if v := interpolate(k.alive(), shares); v.Cmp(x.val) != 0 {
			c.Violate("share", "%s\nthe evaluations do not make shares of the secret", k.desc)
		}
		if rep == 0 {
			t = 1 + r.Intn(k.N)
			if t == 1 {
				// with threshold 1 everybody may know everything of this sharing
				t1 := t
				tds, errs = k.reshare(x.ads, t1)
				if !k.ok("Reshare", errs) {
					return
				}
				k.startLog()
				t = 2
			}
		}
	}
	if c.Violated() {
		return
	}
	// multiplication
	y := k.deal("y")
	if y == nil || y.val == nil {
		return
	}
	for p := range y.shares {
		secrets[p] = append(secrets[p], needle{"share", y.shares[p], -1}, needle{"commitment randomness", y.rs[p], -1})
	}
	privs, pubs := paillierKeys(k.N, 1024)
	m = k.Mark()
	if _, errs = k.mult(x.ads, y.ads, "z", privs, pubs); !k.ok("Mult", errs) {
		return
	}
	fr := k.rounds(k.FramesSince(m))
	masks := map[string]bool{}
	for p := 0; p < k.N; p++ {
		for q := 0; q < k.N; q++ {
			f := fr[1][p][q]
			if f == nil {
				continue
			}
			// the reply of p to q: a of q times b of p plus a mask
			plain, err := privs[q].Decrypt(new(big.Int).SetBytes(f.Data))
			if err != nil {
				c.Violate("frames", "%s\nMult: the reply of %d to %d cannot be decrypted", k.desc, p, q)
				return
			}
			mask := sub(plain, mul(x.shares[q], y.shares[p]))
			if new(big.Int).Abs(mask).BitLen() < 600 {
				c.Violate("mask", "%s\nMult: the reply of party %d to %d hides its share by a mask of %d bits only", k.desc, p, q, mask.BitLen())
			}
			if masks[mask.String()] {
				c.Violate("mask", "%s\nMult: party %d uses a mask twice", k.desc, p)
			}
			masks[mask.String()] = true
			c.Count("replies_decrypted", 1)
		}
		// and the first message is an encryption of a
		got, err := privs[p].Decrypt(new(big.Int).SetBytes(sentBy(fr[0][p])))
		if err != nil || modN(got).Cmp(x.shares[p]) != 0 {
			c.Violate("frames", "%s\nMult: the first message of %d is not an encryption of its share", k.desc, p)
		}
	}
	scan("multiplication", m)
	// exponentiation publishes nothing private, revealing only the shares of that secret
	m = k.Mark()
	if _, errs = k.exp(k.alive(), tds); !k.ok("Exp", errs) {
		return
	}
	scan("exponentiation", m)
	m = k.Mark()
	if _, errs = k.reveal(k.alive(), tds); !k.ok("Reveal", errs) {
		return
	}
	fr = k.rounds(k.FramesSince(m))
	for p := 0; p < k.N; p++ {
		if got := new(big.Int).SetBytes(sentBy(fr[0][p])); got.Cmp(shares[p]) != 0 {
			c.Violate("reveal", "%s\nReveal: party %d publishes %x instead of its share %x", k.desc, p, got, shares[p])
		}
		var rest []needle
		for _, n := range secrets[p] {
			if n.v.Cmp(shares[p]) != 0 {
				rest = append(rest, n)
			}
		}
		secrets[p] = rest
	}
	scan("revealing", m)
	if id < 4 {
		c.Sample("%s: %d private values of party 0 looked for", k.desc, len(secrets[0]))
	}
}

// secretsOfSigning follows a whole presignature and signature.
func (k *kit) secretsOfSigning(r *rand.Rand, id int) {
	c := k.c
	w := k.signers(r)
	if w == nil {
		return
	}
	secrets := make([][]needle, k.N)
	for p := 0; p < k.N; p++ {
		secrets[p] = k.drawn(p)
	}
	k.startLog()
	t := 2 + r.Intn(k.N-1)
	pr := w.presign(t)
	if pr == nil {
		return
	}
	fs := k.FramesSince(pr.mark)
	final := make([][]*big.Int, 4)
	for j := 0; j < 4; j++ {
		sh, nd := k.sharing(fmt.Sprintf("resharing %d of Presign", j), pr.resh[j], pr.shares[j], t)
		if sh == nil {
			return
		}
		final[j] = sh
		for p := range nd {
			secrets[p] = append(secrets[p], nd[p]...)
		}
	}
	for p := 0; p < k.N; p++ {
		secrets[p] = append(secrets[p], k.drawn(p)...)
		k.search("Presign", p, fs, secrets[p])
		c.Eval("%d/presign/%d", id, p)
	}
	msg := coremon.RandScalar(r)
	m := k.Mark()
	sigs, errs := w.sign(k.alive(), msg)
	if !k.ok("Sign", errs) {
		return
	}
	fs = k.FramesSince(m)
	// without a solution (judged by C24) tau is the last of the secrets
	tau := 3
	if ps := parts(sigs[0]); len(ps) == 2 {
		if _, _, at, ok := pr.roles(msg, ps[0], ps[1]); ok {
			tau = at
		}
	}
	for p := 0; p < k.N; p++ {
		// tau is published; k, rho and eta are not
		var rest []needle
		for _, n := range secrets[p] {
			if n.v.Cmp(final[tau][p]) != 0 {
				rest = append(rest, n)
			}
		}
		k.search("Sign", p, fs, rest)
		c.Eval("%d/sign/%d", id, p)
	}
	c.Count("signatures", 1)
}

var _ = tecdsa.Init
