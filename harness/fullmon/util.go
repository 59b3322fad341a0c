// Package fullmon monitors pkg/arith, pkg/tecdsa and the programs.
package fullmon

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"aaa.vmon/simnet"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func modN(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.N) }

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

func sum(xs []*big.Int) *big.Int {
	s := bi(0)
	for _, x := range xs {
		s.Add(s, x)
	}
	return modN(s)
}

func head(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// kit is a session with a commitment key whose discrete logarithm the monitor knows.
type kit struct {
	*simnet.Session
	c    *mon.Ctx
	desc string
	g    curve.Group
	dh   *big.Int
	egf  []*commitment.ElGamalFactory
	srv  []rsync.Server // servers handed to the protocols
}

// newKit starts a session; nil means that it was not possible, which is a violation already reported.
func newKit(c *mon.Ctx, r *rand.Rand, o simnet.Opts, desc string) *kit {
	o.Record = true
	o.Seed = r.Int63()
	s, err := simnet.NewSession(o)
	if err != nil {
		c.Violate("start", "%s\n%v", desc, err)
		return nil
	}
	k := &kit{Session: s, c: c, desc: desc, g: curve.NewSecp256k1Group(), dh: coremon.RandScalar(r), srv: s.Srv}
	for i := 0; i < o.N; i++ {
		s.Rnd = append(s.Rnd, rnd.New(r.Int63()))
		k.egf = append(k.egf, commitment.NewElGamalFactory(k.g.ScalarBaseMult(k.dh)))
	}
	return k
}

func (k *kit) startLog() {
	for _, s := range k.Rnd {
		s.StartLog()
	}
}

// rounds sorts frames by round: [round][from][to].
func (k *kit) rounds(fs []*simnet.Frame) [][][]*simnet.Frame {
	ids := map[int64]bool{}
	for _, f := range fs {
		ids[f.Round] = true
	}
	var order []int64
	for id := range ids {
		order = append(order, id)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	pos := map[int64]int{}
	out := make([][][]*simnet.Frame, len(order))
	for i, id := range order {
		pos[id] = i
		out[i] = make([][]*simnet.Frame, k.N)
		for p := range out[i] {
			out[i][p] = make([]*simnet.Frame, k.N)
		}
	}
	for _, f := range fs {
		if int(f.From) < k.N && int(f.To) < k.N {
			out[pos[f.Round]][f.From][f.To] = f
		}
	}
	return out
}

// any returns the data a party sent to anybody in a round.
func sentBy(row []*simnet.Frame) []byte {
	for _, f := range row {
		if f != nil {
			return f.Data
		}
	}
	return nil
}

// ok reports errors of an operation of honest parties.
func (k *kit) ok(what string, errs []error) bool {
	for pid, e := range errs {
		if e == nil {
			continue
		}
		if p, is := e.(*simnet.PanicError); is {
			k.c.Violate("panic", "%s\n%s panics at party %d: %v", k.desc, what, pid, p)
		} else {
			k.c.Violate("failed", "%s\n%s of honest parties fails at party %d: %v", k.desc, what, pid, e)
		}
		return false
	}
	return true
}

// noPanic reports panics only.
func (k *kit) noPanic(what string, errs []error) bool {
	if p := simnet.Panicked(errs); p != nil {
		k.c.Violate("panic", "%s\n%s panics: %v", k.desc, what, p)
		return false
	}
	return true
}

func (k *kit) alive() []int {
	var out []int
	for i := 0; i < k.N; i++ {
		out = append(out, i)
	}
	return out
}

func (k *kit) gen(label string) ([]*arith.ADSecret, []error) {
	out := make([]*arith.ADSecret, k.N)
	errs := k.AllCut(func(p int) (err error) {
		out[p], err = arith.Gen(label, k.srv[p], k.egf[p], uint16(p), uint16(k.N))
		return err
	})
	return out, errs
}

func (k *kit) reshare(ads []*arith.ADSecret, t int) ([]*arith.TDSecret, []error) {
	return k.reshareAt(k.alive(), ads, t)
}

func (k *kit) reshareAt(pids []int, ads []*arith.ADSecret, t int) ([]*arith.TDSecret, []error) {
	out := make([]*arith.TDSecret, k.N)
	errs := k.SomeCut(pids, func(p int) (err error) {
		out[p], err = ads[p].Reshare(uint16(t))
		return err
	})
	return out, errs
}

func (k *kit) reveal(pids []int, s []*arith.TDSecret) ([]*big.Int, []error) {
	out := make([]*big.Int, k.N)
	errs := k.SomeCut(pids, func(p int) (err error) {
		out[p], err = s[p].Reveal()
		return err
	})
	return out, errs
}

func (k *kit) exp(pids []int, s []*arith.TDSecret) ([]*arith.TDKey, []error) {
	out := make([]*arith.TDKey, k.N)
	errs := k.SomeCut(pids, func(p int) (err error) {
		out[p], err = s[p].Exp()
		return err
	})
	return out, errs
}

func (k *kit) ger(label string) ([]*arith.DKey, []error) {
	out := make([]*arith.DKey, k.N)
	errs := k.AllCut(func(p int) (err error) {
		out[p], err = arith.GenExpReveal(uint16(p), label, k.srv[p], uint16(k.N), k.g)
		return err
	})
	return out, errs
}

func embed(s []*arith.TDSecret) []*arith.ADSecret {
	out := make([]*arith.ADSecret, len(s))
	for i := range s {
		if s[i] != nil {
			out[i] = &s[i].ADSecret
		}
	}
	return out
}

func (k *kit) pt(p curve.Point) ref.Pt {
	q, ok := coremon.ToRef(k.g, p)
	if !ok {
		k.c.Violate("point", "%s\na result is not a group element", k.desc)
	}
	return q
}

// cands are the scalars that may have been made of what a party read as randomness.
func cands(log [][]byte) []*big.Int {
	var out []*big.Int
	for _, b := range log {
		if len(b) < 28 || len(b) > 64 {
			continue
		}
		x := new(big.Int).SetBytes(b)
		out = append(out, modN(x), add(new(big.Int).Mod(x, sub(ref.N, bi(1))), bi(1)))
	}
	return out
}

// dlog finds the discrete logarithm of p among what a party read.
func dlog(p ref.Pt, log [][]byte) *big.Int {
	for _, x := range cands(log) {
		if ref.Base(x).Eq(p) {
			return x
		}
	}
	return nil
}

// deal is a generated secret with everything the monitor knows about it.
type deal struct {
	ads    []*arith.ADSecret
	comms  []ref.Comm
	shares []*big.Int // scalar shares, or nil where unknown
	pts    []ref.Pt   // shares times the generator
	rs     []*big.Int
	pub    ref.Pt
	val    *big.Int
}

// genScript makes the next Gen of a party draw the given share, with random commitment randomness.
func (k *kit) genScript(p int, share *big.Int) {
	b := make([]byte, 32)
	share.FillBytes(b)
	k.Rnd[p].Script(b)
}

// deal runs Gen at all parties and reads the shares from the wire and the randomness.
func (k *kit) deal(label string) *deal {
	k.startLog()
	m := k.Mark()
	ads, errs := k.gen(label)
	if !k.ok("Gen", errs) {
		return nil
	}
	d := &deal{ads: ads}
	fr := k.rounds(k.FramesSince(m))
	d.pub = ref.Inf
	for p := 0; p < k.N; p++ {
		log := k.Rnd[p].Log()
		var c ref.Comm
		if k.N > 1 {
			var err error
			if c, _, err = ref.DecodeComm(sentBy(fr[0][p])); err != nil {
				k.c.Violate("frame", "%s\nparty %d's message in Gen does not start with a commitment: %x", k.desc, p, head(sentBy(fr[0][p])))
				return nil
			}
		} else {
			// nothing is sent: the share is what resharing and revealing a copy returns, and must have been drawn
			copied := *ads[0]
			var v *big.Int
			errs := k.AllCut(func(int) error {
				tds, err := (&copied).Reshare(1)
				if err == nil {
					v, err = tds.Reveal()
				}
				return err
			})
			if !k.ok("Reshare and Reveal", errs) {
				return nil
			}
			var cr *big.Int
			drawn := false
			for _, x := range cands(log) {
				if v != nil && x.Cmp(v) == 0 {
					drawn = true
				} else if cr == nil {
					cr = x
				}
			}
			if !drawn {
				k.c.Violate("fresh", "%s\nthe only party's secret is %x, which it has not drawn", k.desc, v)
				return nil
			}
			if cr == nil {
				cr = v
			}
			c = ref.Commit(ref.Base(k.dh), v, cr)
		}
		d.comms = append(d.comms, c)
		pt := c.Open(k.dh)
		d.pts = append(d.pts, pt)
		d.shares = append(d.shares, dlog(pt, log))
		d.rs = append(d.rs, dlog(c.A, log))
		d.pub = d.pub.Add(pt)
	}
	d.val = bi(0)
	for _, s := range d.shares {
		if s == nil {
			d.val = nil
			break
		}
		d.val = modN(add(d.val, s))
	}
	return d
}

// checkValue compares a revealed value with the secret.
func (k *kit) checkValue(key, what string, v *big.Int, pub ref.Pt, val *big.Int) bool {
	if v == nil {
		k.c.Violate(key, "%s\n%s: no value and no error", k.desc, what)
		return false
	}
	if v.Sign() < 0 || v.Cmp(ref.N) >= 0 || !ref.Base(v).Eq(pub) || val != nil && v.Cmp(val) != 0 {
		k.c.Violate(key, "%s\n%s: got %x, whose public key is %v; want %x, %v", k.desc, what, v, ref.Base(v), val, pub)
		return false
	}
	return true
}

// checkKey compares a public key with the expected one.
func (k *kit) checkKey(key, what string, tk *arith.TDKey, pub ref.Pt) bool {
	if tk == nil {
		k.c.Violate(key, "%s\n%s: no key and no error", k.desc, what)
		return false
	}
	if q := k.pt(tk.PublicKey()); !q.Eq(pub) {
		k.c.Violate(key, "%s\n%s: got the key %v, want %v", k.desc, what, q, pub)
		return false
	}
	return true
}

func subsets(n, size int) [][]int {
	var out [][]int
	for m := 0; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) == size {
			out = append(out, s)
		}
	}
	return out
}

func has(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func without(n int, s []int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if !has(s, i) {
			out = append(out, i)
		}
	}
	return out
}

// interpolate takes shares of the given parties (evaluations at pid+1) to the value at 0.
func interpolate(set []int, shares []*big.Int) *big.Int {
	var xs []int64
	var ys []*big.Int
	for _, p := range set {
		xs = append(xs, int64(p+1))
		ys = append(ys, shares[p])
	}
	return ref.Interpolate(xs, ys)
}

// evals decodes the message of step 8 of Reshare.
func evals(data []byte) (*big.Int, *big.Int, error) {
	if len(data) < 4 {
		return nil, nil, fmt.Errorf("short")
	}
	l := int(binary.LittleEndian.Uint32(data))
	if l < 0 || l > len(data)-4 {
		return nil, nil, fmt.Errorf("length")
	}
	return new(big.Int).SetBytes(data[4 : 4+l]), new(big.Int).SetBytes(data[4+l:]), nil
}

// divided is the divided difference of the given order-1 points: the leading coefficient of the
// polynomial of degree len-1 through them.
func divided(xs []int64, ys []*big.Int) *big.Int {
	s := bi(0)
	for i := range xs {
		d := bi(1)
		for j := range xs {
			if j != i {
				d.Mul(d, bi(xs[i]-xs[j]))
			}
		}
		d.ModInverse(modN(d), ref.N)
		s.Add(s, d.Mul(d, ys[i]))
	}
	return modN(s)
}

var (
	keyMx   sync.Mutex
	keyPool = map[int][]*paillier.PrivateKey{}
)

// paillierKeys returns n keys of the given size, from a pool.
// size is the number of parties of session i: a few sessions are large, where powers of indices get long
// and small tables end.
func size(c *mon.Ctx, i int, small ...int) int {
	big := []int{9, 11, 13, 17}[:c.Pick(2, 4)]
	if i < len(big) {
		return big[i]
	}
	return small[i%len(small)]
}

func paillierKeys(n, bits int) ([]*paillier.PrivateKey, []*paillier.PublicKey) {
	keyMx.Lock()
	defer keyMx.Unlock()
	for len(keyPool[bits]) < n {
		var wg sync.WaitGroup
		need := n - len(keyPool[bits])
		got := make([]*paillier.PrivateKey, need)
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				got[i], _, _ = paillier.GenerateKeyPair(bits, 0)
			}(i)
		}
		wg.Wait()
		keyPool[bits] = append(keyPool[bits], got...)
		mon.Tick()
	}
	var pub []*paillier.PublicKey
	for _, k := range keyPool[bits][:n] {
		pub = append(pub, &paillier.PublicKey{N: new(big.Int).Set(k.N)})
	}
	return append([]*paillier.PrivateKey{}, keyPool[bits][:n]...), pub
}

// nextRound is the identifier the next round will have.
func (k *kit) nextRound() int64 {
	r := int64(0)
	for _, f := range k.Frames() {
		if f.Round > r {
			r = f.Round
		}
	}
	return r + 1
}

// rewrite lets fn replace the data of frames from now on; nil leaves a frame as it is.
func (k *kit) rewrite(fn func(rd int, f *simnet.Frame) []byte) {
	k.rewriteRaw(func(rd int, f *simnet.Frame) []byte {
		if d := fn(rd, f); d != nil {
			return simnet.RawFrame(f.Pid, f.Round, d)
		}
		return nil
	})
}

// rewriteRaw does the same with whole frames.
func (k *kit) rewriteRaw(fn func(rd int, f *simnet.Frame) []byte) {
	base := k.nextRound()
	k.SetOnFrame(func(f *simnet.Frame) simnet.Verdict {
		if d := fn(int(f.Round-base), f); d != nil {
			return simnet.Verdict{Replace: [][]byte{d}}
		}
		return simnet.Verdict{}
	})
}
