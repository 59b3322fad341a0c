package coremon

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"sync"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Book keeps everything that has to be drawn once only.
type Book struct {
	c     *mon.Ctx
	mx    sync.Mutex
	seen  map[string]string
	small map[string]bool
	bits  map[string]*[257]int
}

// NewBook makes an empty one.
func NewBook(c *mon.Ctx) *Book {
	b := &Book{c: c, seen: map[string]string{}, small: map[string]bool{}, bits: map[string]*[257]int{}}
	p := ref.Inf
	for i := 0; i < 3000; i++ {
		b.small[xOf(p)] = true
		p = p.Add(ref.G)
	}
	return b
}

// xOf identifies a point up to its sign.
func xOf(p ref.Pt) string {
	if p.IsInf() {
		return "inf"
	}
	return string(p.X.Bytes())
}

// Point notes that a value was drawn of which the monitor sees the multiple of the generator.
func (b *Book) Point(kind, desc string, p ref.Pt) bool {
	x := xOf(p)
	b.mx.Lock()
	old, dup := b.seen[x]
	b.seen[x] = desc + " (" + kind + ")"
	b.mx.Unlock()
	b.c.Count("points_"+kind, 1)
	if b.small[x] {
		b.c.Violate("small", "%s\n%s is tiny: %v", desc, kind, p)
		return false
	}
	if dup {
		b.c.Violate("reused", "%s: %s\nis plus or minus the value of\n%s", kind, desc, old)
		return false
	}
	return true
}

// Value notes a scalar itself.
func (b *Book) Value(kind, desc string, x *big.Int) bool {
	b.mx.Lock()
	t := b.bits[kind]
	if t == nil {
		t = &[257]int{}
		b.bits[kind] = t
	}
	for i := 0; i < 256; i++ {
		t[i] += int(x.Bit(i))
	}
	t[256]++
	b.mx.Unlock()
	b.c.Count("values_"+kind, 1)
	if at, ok := monotone(x); ok {
		b.c.Violate("range", "%s\n%s: %x has %d equal bits from bit %d on", desc, kind, x, window, at)
		return false
	}
	return true
}

const window = 56

// monotone looks for a run of equal bits too long for chance (one number in 10^14 has one).
func monotone(x *big.Int) (int, bool) {
	run := 0
	for i := 0; i < 256; i++ {
		if i > 0 && x.Bit(i) != x.Bit(i-1) {
			run = 0
		}
		if run++; run >= window {
			return i - run + 1, true
		}
	}
	return 0, false
}

// Relation notes something computed from two draws that must not repeat.
func (b *Book) Relation(kind, desc string, x *big.Int) {
	b.mx.Lock()
	k := kind + string(x.Bytes())
	old, dup := b.seen[k]
	b.seen[k] = desc
	b.mx.Unlock()
	if dup {
		b.c.Violate("related", "%s: %s\nis the same as for\n%s", kind, desc, old)
	}
}

// Judge looks at the statistics of the values.
func (b *Book) Judge() {
	for kind, t := range b.bits {
		n := t[256]
		if n < 128 {
			continue
		}
		for i := 0; i < 256; i++ {
			d := 2*t[i] - n // standard deviation sqrt(n)
			if d*d > 64*n || n < 1000 && (t[i] == 0 || t[i] == n) {
				b.c.Violate("range", "%s: bit %d is set in %d of %d values", kind, i, t[i], n)
				break
			}
		}
	}
}

// knowNonces recovers the blinding values of a proof of knowledge whose witness is known.
func knowNonces(cm ref.Comm, p ref.Proof, v, r *big.Int) (sigma, rho *big.Int) {
	e := ref.Hash(cm.Encode(), p.XY.Encode())
	return modN(sub(p.Z1, mul(e, r))), modN(sub(p.Z2, mul(e, v)))
}

type prover struct {
	c    *mon.Ctx
	b    *Book
	base *egBase
	last [2]*big.Int
}

func decodeProof(c *mon.Ctx, desc string, z interface{ Encode(io.Writer) error }) (ref.Proof, bool) {
	var buf bytes.Buffer
	if err := z.Encode(&buf); err != nil {
		c.Violate("failed", "%s\nencoding fails: %v", desc, err)
		return ref.Proof{}, false
	}
	p, rest, err := ref.DecodeProof(buf.Bytes())
	if err != nil || len(rest) > 0 {
		c.Violate("failed", "%s\nstrange encoding %x", desc, buf.Bytes())
		return ref.Proof{}, false
	}
	return p, true
}

// know books one proof of knowledge.
func (w *prover) know(desc string, cm *commitment.ElGamal, z *zkpok.ZKEGKnow, v, r *big.Int) {
	p, ok := decodeProof(w.c, desc, z)
	if !ok {
		return
	}
	w.c.Eval("know/%x", p.Encode())
	a, bb := p.XY.A, p.XY.Open(w.base.k)
	w.b.Point("know_sigma", desc, a)
	w.b.Point("know_rho", desc, bb)
	st, ok := CommRef(cm)
	if !ok {
		return
	}
	sigma, rho := knowNonces(st, p, v, r)
	if modN(v).Sign() == 0 && modN(r).Sign() == 0 {
		sigma, rho = p.Z1, p.Z2
	}
	if !ref.Base(sigma).Eq(a) || !ref.Base(rho).Eq(bb) {
		w.c.Count("not_recovered", 1) // another challenge: other properties look at that
		return
	}
	w.b.Value("know_sigma", desc, sigma)
	w.b.Value("know_rho", desc, rho)
	w.b.Relation("rho-sigma", desc, modN(sub(rho, sigma)))
	w.b.Relation("rho+sigma", desc, modN(add(rho, sigma)))
	if sigma.Sign() != 0 {
		w.b.Relation("rho/sigma", desc, modN(mul(rho, inv(sigma))))
	}
	for i, x := range []*big.Int{sigma, rho} {
		if w.last[i] != nil && w.last[i].Sign() != 0 {
			w.b.Relation(fmt.Sprint("step", i), desc, modN(sub(x, w.last[i])))
			w.b.Relation(fmt.Sprint("factor", i), desc, modN(mul(x, inv(w.last[i]))))
		}
		w.last[i] = x
	}
}

func (w *prover) refresh(desc string, z *zkpok.ZKEGRefresh, r *big.Int) {
	p, ok := decodeProof(w.c, desc, z)
	if !ok {
		return
	}
	w.c.Eval("refresh/%x", p.Encode())
	w.b.Point("refresh_sigma", desc, p.XY.A)
	sigma := modN(sub(p.Z1, mul(p.Z2, r)))
	if modN(r).Sign() == 0 {
		sigma = p.Z1
	}
	if !ref.Base(sigma).Eq(p.XY.A) {
		w.c.Count("not_recovered", 1)
		return
	}
	w.b.Value("refresh_sigma", desc, sigma)
}

// C08Rule describes RunC08.
const C08Rule = "proofs: no blinding value (recovered from the known witness) repeats up to its sign anywhere, none is tiny, sums, differences and quotients do not repeat, every bit of it is set as often as not (8 standard deviations), each depends on at least 32 bytes of the randomness source that do not matter to the other; and every failing read of the source, at every position and in several ways, gives an error and no proof"

// RunC08 looks at the proofs on their own.
func RunC08(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	mk := c.Rng("bases")
	var bases []*egBase
	for i := 0; i < 3; i++ {
		bases = append(bases, newBase(g, fmt.Sprintf("random%d", i), RandScalar(mk)))
	}
	bases = append(bases, newBase(g, "G", bi(1)), newBase(g, "-G", bi(-1)))
	book := NewBook(c)
	// statements proved again and again, alternately, with the very same and with equal objects
	es := EdgeScalars()
	workers := 8
	prove := func(i int) {
		r := c.Rng("prover", i)
		b := bases[i%len(bases)]
		w := &prover{c: c, b: book, base: b}
		type stmt struct {
			v, r   *big.Int
			cm     *commitment.ElGamal
			pv, pr *big.Int // the objects passed, mostly the very same ones every time
		}
		var sts []stmt
		for j := 0; j < 6; j++ {
			v, rr := RandScalar(r), RandScalar(r)
			switch j {
			case 0:
				v, rr = bi(0), bi(0)
			case 1:
				v = bi(0)
			case 2:
				rr = bi(0)
			case 3:
				v, rr = es[r.Intn(len(es))], es[r.Intn(len(es))]
			}
			sts = append(sts, stmt{v, rr, b.f.Create(cp(v), cp(rr)), cp(v), cp(rr)})
		}
		refreshed := map[*commitment.ElGamal]*commitment.ElGamal{}
		n := c.Pick(350, 12000)
		if i == workers {
			n /= 4 // this one is alone
		}
		for j := 0; j < n && !c.Violated(); j++ {
			s := sts[r.Intn(len(sts))]
			if r.Intn(3) == 0 {
				s = sts[0]
			}
			switch r.Intn(4) {
			case 0:
				s = stmt{s.v, s.r, b.f.Create(cp(s.v), cp(s.r)), cp(s.v), cp(s.r)}
			case 1:
				v, rr := RandScalar(r), RandAnyScalar(r)
				s = stmt{v, rr, b.f.Create(cp(v), cp(rr)), cp(v), cp(rr)}
			case 2:
				s.pv, s.pr = cp(s.v), cp(s.r)
			}
			reps := 1 + r.Intn(3)
			for ; reps > 0; reps-- {
				desc := fmt.Sprintf("prover %d, proof %d of (%x, %x) under base %s", i, j, s.v, s.r, b.name)
				if r.Intn(3) > 0 {
					z, err := zkpok.NewZKEGKnow(b.f, s.cm, s.pv, s.pr)
					if err != nil {
						c.Violate("failed", "%s\n%v", desc, err)
						continue
					}
					w.know(desc, s.cm, z, s.v, s.r)
				} else {
					rr := s.r
					c2 := refreshed[s.cm]
					if c2 == nil || r.Intn(3) == 0 {
						c2 = b.f.Neutral()
						c2.Compose(s.cm, b.f.Create(bi(0), cp(rr)))
						refreshed[s.cm] = c2
					}
					z, err := zkpok.NewZKEGRefresh(b.f, s.cm, c2, s.pr)
					if err != nil {
						c.Violate("failed", "%s\n%v", desc, err)
						continue
					}
					w.refresh(desc, z, rr)
				}
				if i == 0 && j < 3 {
					c.Sample("%s", desc)
				}
			}
		}
	}
	prove(workers)
	c.Parallel(workers, workers, prove)
	book.Judge()
	if c.Violated() {
		return
	}
	for i := 0; i < c.Pick(4, 24); i++ {
		influence(c, c.Rng("influence", i), bases[i%len(bases)], i)
	}
	failing(c, c.Rng("failing"), bases)
}

// influence finds the bytes of the source that each blinding value depends on.
func influence(c *mon.Ctx, r *rand.Rand, b *egBase, id int) {
	v, rr := RandScalar(r), RandScalar(r)
	seed := r.Int63()
	cm := b.f.Create(cp(v), cp(rr))
	c2 := b.f.Neutral()
	c2.Compose(cm, b.f.Create(bi(0), cp(rr)))
	type vals map[string]string
	know := func() (vals, bool) {
		z, err := zkpok.NewZKEGKnow(b.f, cm, cp(v), cp(rr))
		if err != nil {
			c.Violate("failed", "influence: %v", err)
			return nil, false
		}
		p, ok := decodeProof(c, "influence", z)
		if !ok {
			return nil, false
		}
		return vals{"sigma": string(p.XY.A.Encode()), "rho": string(p.XY.Open(b.k).Encode())}, true
	}
	refr := func() (vals, bool) {
		z, err := zkpok.NewZKEGRefresh(b.f, cm, c2, cp(rr))
		if err != nil {
			c.Violate("failed", "influence: %v", err)
			return nil, false
		}
		p, ok := decodeProof(c, "influence", z)
		if !ok {
			return nil, false
		}
		return vals{"sigma": string(p.XY.A.Encode())}, true
	}
	for kind, f := range map[string]func() (vals, bool){"proof of knowledge": know, "refresh proof": refr} {
		Influence(c, fmt.Sprintf("%s %d of (%x, %x)", kind, id, v, rr), rnd.S, seed, nil, func() (map[string]string, bool) { v, ok := f(); return v, ok })
	}
}

// Influence runs f with the source seeded alike, except for one byte at a time, and requires that each
// of the values depends on at least 32 bytes that no other value depends on. Where the order of the
// reads is not fixed (they may be made on several goroutines), it is enough that each value is the
// multiple of the base point by a read of its own, in several runs.
func Influence(c *mon.Ctx, desc string, src *rnd.Source, seed int64, before func(), f func() (map[string]string, bool)) {
	run := func(flip int64) (map[string]string, bool) {
		if before != nil {
			before()
		}
		src.Seed(seed)
		if flip >= 0 {
			src.Flip(flip)
		}
		v, ok := f()
		c.Eval("influence/%s/%d", desc, flip)
		return v, ok
	}
	direct := func() bool {
		for i := int64(1); i <= 3; i++ {
			if before != nil {
				before()
			}
			src.Seed(seed + i)
			src.StartLog()
			v, ok := f()
			if !ok {
				return false
			}
			at := map[string]int{}
			for j, b := range src.Log() {
				if len(b) >= 32 {
					// numbers that must not be zero may be drawn one lower
					x := new(big.Int).SetBytes(b)
					at[string(ref.Base(modN(x)).Encode())] = j
					at[string(ref.Base(modN(add(x, bi(1)))).Encode())] = j
				}
			}
			used := map[int]bool{}
			for _, q := range v {
				j, ok := at[q]
				if !ok || used[j] {
					return false
				}
				used[j] = true
			}
		}
		c.Count("influence_direct", 1)
		return true
	}
	first, ok := run(-1)
	if !ok {
		return
	}
	n := src.Pos()
	again, ok := run(-1)
	if !ok {
		return
	}
	own := map[string]int{}
	for k, v := range first {
		own[k] = 0
		if again[k] != v {
			if direct() {
				return
			}
			// not a function of the source: then it does not come from it alone
			c.Violate("source", "%s\n%s differs between two runs with the same randomness: it is not drawn from the system's source", desc, k)
			return
		}
	}
	for i := int64(0); i < n && i < 4096; i++ {
		v, ok := run(i)
		if !ok {
			return
		}
		var changed []string
		for k := range first {
			if v[k] != first[k] {
				changed = append(changed, k)
			}
		}
		if len(changed) == 1 {
			own[changed[0]]++
		}
	}
	for k, m := range own {
		if m < 32 {
			if direct() {
				return
			}
			c.Violate("independent", "%s\n%s depends on %d bytes of the randomness source of its own (%d were read): less than 32", desc, k, m, n)
		}
	}
}

var failures = []error{rnd.ErrInjected, io.EOF, io.ErrUnexpectedEOF}

// failing lets every read of the source fail in turn.
func failing(c *mon.Ctx, r *rand.Rand, bases []*egBase) {
	rnd.S.Seed(r.Int63())
	for _, b := range bases {
		v, rr := RandScalar(r), RandScalar(r)
		cm := b.f.Create(cp(v), cp(rr))
		c2 := b.f.Neutral()
		c2.Compose(cm, b.f.Create(bi(0), cp(rr)))
		for kind := 0; kind < 2; kind++ {
			name := []string{"NewZKEGKnow", "NewZKEGRefresh"}[kind]
			prove := func() (got bool, err error) {
				if kind == 0 {
					z, err := zkpok.NewZKEGKnow(b.f, cm, cp(v), cp(rr))
					return z != nil, err
				}
				z, err := zkpok.NewZKEGRefresh(b.f, cm, c2, cp(rr))
				return z != nil, err
			}
			before := rnd.S.Reads()
			if _, err := prove(); err != nil {
				c.Violate("failed", "%s: %v", name, err)
				continue
			}
			reads := rnd.S.Reads() - before
			for at := int64(0); at < reads+1; at++ {
				for mode := 0; mode < 12; mode++ {
					once, partial, e := mode%2 == 0, mode/2%2 == 0, failures[mode/4]
					desc := fmt.Sprintf("%s under base %s, read %d of %d of the randomness source fails (once %v, after half of the bytes %v, %v)", name, b.name, at, reads, once, partial, e)
					c.Guard("failclosed", desc, func() {
						rnd.S.ArmWith(at, once, partial, e)
						got, err := prove()
						failed := rnd.S.Disarm()
						c.Eval("%s", desc)
						if failed > 0 && err == nil {
							c.Violate("failclosed", "%s\nbut there is no error", desc)
						}
						if failed > 0 && got {
							c.Violate("failclosed", "%s\nbut there is a proof", desc)
						}
						if failed == 0 && err != nil {
							c.Violate("failed", "%s\nthat read does not happen, yet: %v", desc, err)
						}
						c.Count("failing_reads", failed)
					})
					rnd.S.Disarm()
				}
			}
		}
	}
}
