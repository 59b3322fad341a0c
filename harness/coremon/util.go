// Package coremon monitors pkg/curve and pkg/crypto.
package coremon

import (
	"bytes"
	"math/big"
	"math/rand"
	"sync"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Enc encodes a point.
func Enc(g curve.Group, p curve.Point) []byte {
	b := &bytes.Buffer{}
	if err := g.Encode(p, b); err != nil {
		return []byte("error: " + err.Error())
	}
	return b.Bytes()
}

// ToRef converts a point of the code under test; ok is false when it is not a group element.
func ToRef(g curve.Group, p curve.Point) (ref.Pt, bool) {
	q, rest, err := ref.DecodePt(Enc(g, p))
	return q, err == nil && len(rest) == 0
}

// FromRef makes a point of the code under test.
func FromRef(g curve.Group, p ref.Pt) curve.Point {
	if p.IsInf() {
		return g.Neutral()
	}
	q, err := g.Decode(bytes.NewReader(p.Encode()))
	if err != nil {
		return nil
	}
	return q
}

// EncComm encodes a commitment.
func EncComm(c *commitment.ElGamal) []byte {
	b := &bytes.Buffer{}
	if err := c.Encode(b); err != nil {
		return []byte("error: " + err.Error())
	}
	return b.Bytes()
}

// CommRef converts a commitment.
func CommRef(c *commitment.ElGamal) (ref.Comm, bool) {
	q, rest, err := ref.DecodeComm(EncComm(c))
	return q, err == nil && len(rest) == 0
}

// CommFrom makes a commitment of the code under test.
func CommFrom(c ref.Comm) *commitment.ElGamal {
	e := &commitment.ElGamal{}
	if err := e.Decode(bytes.NewReader(c.Encode())); err != nil {
		return nil
	}
	return e
}

func bi(n int64) *big.Int { return big.NewInt(n) }

// cp copies a scalar before the code under test gets it, so that what the monitor knows stays as it is
// whatever the code does to its arguments (which is for C02 to notice).
func cp(k *big.Int) *big.Int { return new(big.Int).Set(k) }

// slots hands scalars over in a few objects that are used again and again, as callers do.
type slots struct {
	s [3]*big.Int
	n int
}

func (s *slots) cp(k *big.Int) *big.Int {
	s.n = (s.n + 1) % len(s.s)
	if s.s[s.n] == nil {
		s.s[s.n] = new(big.Int)
	}
	return s.s[s.n].Set(k)
}

func shl(k uint) *big.Int { return new(big.Int).Lsh(bi(1), k) }

func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }

// RandBits returns a number of exactly up to n random bits.
func RandBits(r *rand.Rand, n int) *big.Int {
	b := make([]byte, (n+7)/8)
	r.Read(b)
	x := new(big.Int).SetBytes(b)
	return x.Rsh(x, uint(8*len(b)-n))
}

// RandScalar returns a random scalar below the order.
func RandScalar(r *rand.Rand) *big.Int {
	x := RandBits(r, 320)
	return x.Mod(x, ref.N)
}

// EdgeScalars are the scalars at which implementations go wrong.
func EdgeScalars() []*big.Int {
	n := ref.N
	half := new(big.Int).Rsh(n, 1)
	out := []*big.Int{bi(0), bi(1), bi(2), bi(3), bi(4), bi(5), bi(7), bi(8), bi(15), bi(16), bi(17), bi(255), bi(256), bi(257), bi(65535), bi(65536),
		sub(n, bi(3)), sub(n, bi(2)), sub(n, bi(1)), n, add(n, bi(1)), add(n, bi(2)), add(n, bi(3)),
		half, add(half, bi(1)), add(half, bi(2)), ref.P, sub(ref.P, bi(1)), add(ref.P, bi(1)), sub(ref.P, n),
		sub(shl(256), bi(1)), shl(256), add(shl(256), bi(1)), sub(shl(256), n),
		mul(n, bi(2)), sub(mul(n, bi(2)), bi(1)), add(mul(n, bi(2)), bi(1)), mul(n, bi(3)), mul(n, n), add(mul(n, n), bi(1)), sub(mul(n, n), bi(1)),
		mul(n, shl(64)), add(mul(n, shl(200)), bi(5)), sub(shl(512), bi(1)), shl(512), shl(1024), add(shl(2000), bi(9)),
		ref.Lambda, sub(n, ref.Lambda), mul(ref.Lambda, ref.Lambda), sub(n, shl(128)), shl(128), sub(shl(128), bi(1)), shl(255), sub(shl(255), bi(1)), shl(248), sub(shl(248), bi(1))}
	res := make([]*big.Int, len(out))
	for i := range out {
		res[i] = new(big.Int).Set(out[i])
	}
	return res
}

// RandAnyScalar mixes edge, short, full and overlong scalars.
func RandAnyScalar(r *rand.Rand) *big.Int {
	es := EdgeScalars()
	switch r.Intn(8) {
	case 0:
		return es[r.Intn(len(es))]
	case 1:
		return RandBits(r, 1+r.Intn(256))
	case 2:
		return RandBits(r, 256+r.Intn(400))
	case 3:
		return shl(uint(r.Intn(300)))
	case 4:
		return sub(ref.N, RandBits(r, 1+r.Intn(130)))
	case 5:
		return add(ref.N, RandBits(r, 1+r.Intn(130)))
	default:
		return RandScalar(r)
	}
}

// LiftY returns a point with the given y, if there is one (p = 7 mod 9).
func LiftY(y *big.Int) (ref.Pt, bool) {
	a := mul(y, y)
	a.Sub(a, bi(7)).Mod(a, ref.P)
	e := add(ref.P, bi(2))
	e.Div(e, bi(9))
	x := new(big.Int).Exp(a, e, ref.P)
	p := ref.Pt{X: x, Y: new(big.Int).Set(y)}
	return p, p.OnCurve()
}

var (
	edgeOnce sync.Once
	edgePts  []ref.Pt
)

// EdgePoints are group elements with unusual coordinates or relations.
func EdgePoints() []ref.Pt {
	edgeOnce.Do(func() { edgePts = makeEdgePoints() })
	return append([]ref.Pt{}, edgePts...)
}

func makeEdgePoints() []ref.Pt {
	out := []ref.Pt{ref.Inf, ref.G, ref.G.Neg()}
	for _, k := range []int64{2, 3, 4, 5, 7, 16} {
		out = append(out, ref.Base(bi(k)), ref.Base(bi(-k)))
	}
	half := new(big.Int).Rsh(ref.N, 1)
	out = append(out, ref.Base(half), ref.Base(add(half, bi(1))), ref.Base(ref.Lambda), ref.Base(mul(ref.Lambda, ref.Lambda)))
	nx, ny := 0, 0
	for i := int64(1); nx < 4; i++ {
		if p, ok := ref.LiftX(bi(i)); ok {
			out = append(out, p, p.Neg())
			nx++
		}
	}
	for i := int64(1); ny < 4; i++ {
		if p, ok := LiftY(bi(i)); ok {
			out = append(out, p, p.Neg())
			// the other two points with the same y
			x := mul(p.X, ref.Beta)
			out = append(out, ref.Pt{X: x.Mod(x, ref.P), Y: p.Y})
			ny++
		}
	}
	for i := int64(1); nx < 6; i++ {
		if p, ok := ref.LiftX(sub(ref.P, bi(i))); ok {
			out = append(out, p)
			nx++
		}
	}
	for _, k := range []uint{240, 248, 128, 200} {
		for i := int64(0); ; i++ {
			if p, ok := ref.LiftX(sub(shl(k), bi(i))); ok {
				out = append(out, p)
				break
			}
		}
	}
	return out
}

// Same compares a point of the code under test with the expected one.
func Same(g curve.Group, p curve.Point, want ref.Pt) bool {
	got, ok := ToRef(g, p)
	return ok && got.Eq(want)
}

var _ = mon.Tick
