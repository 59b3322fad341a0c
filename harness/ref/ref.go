// Package ref is an independent reference for the mathematics under test: secp256k1, ElGamal
// commitments, hash to scalar, interpolation, written with math/big only.
package ref

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"
)

func hexInt(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

// Parameters of secp256k1.
var (
	P = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	G = Pt{X: hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		Y: hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	Inf = Pt{}
	// Beta is a primitive cube root of one modulo P: (Beta*x, y) is on the curve when (x, y) is.
	Beta = hexInt("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")
	// Lambda is the corresponding scalar.
	Lambda = hexInt("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
)

// Pt is an affine point; X == nil means the neutral element.
type Pt struct{ X, Y *big.Int }

// IsInf tells whether p is neutral.
func (p Pt) IsInf() bool { return p.X == nil }

// Eq compares points.
func (p Pt) Eq(q Pt) bool {
	if p.IsInf() || q.IsInf() {
		return p.IsInf() && q.IsInf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// OnCurve tells whether p is an element of the group.
func (p Pt) OnCurve() bool {
	if p.IsInf() {
		return true
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Mul(p.X, p.X)
	r.Mul(r, p.X)
	r.Add(r, big.NewInt(7))
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

func (p Pt) String() string {
	if p.IsInf() {
		return "neutral"
	}
	return p.X.Text(16) + "," + p.Y.Text(16)
}

// Neg is the inverse.
func (p Pt) Neg() Pt {
	if p.IsInf() {
		return p
	}
	y := new(big.Int).Sub(P, p.Y)
	return Pt{new(big.Int).Set(p.X), y.Mod(y, P)}
}

// Add is the affine group law.
func (p Pt) Add(q Pt) Pt {
	if p.IsInf() {
		return q
	}
	if q.IsInf() {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		if p.Y.Cmp(q.Y) != 0 || p.Y.Sign() == 0 {
			return Inf
		}
		l = new(big.Int).Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(p.Y, 1)
		l.Mul(l, d.ModInverse(d, P))
	} else {
		l = new(big.Int).Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		d.Mod(d, P)
		l.Mul(l, d.ModInverse(d, P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X).Sub(x, q.X).Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l).Sub(y, p.Y).Mod(y, P)
	return Pt{x, y}
}

// Sub is p-q.
func (p Pt) Sub(q Pt) Pt { return p.Add(q.Neg()) }

type jac struct{ x, y, z *big.Int } // z == 0 is neutral

func mod(a *big.Int) *big.Int { return a.Mod(a, P) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}

func (p jac) dbl() jac {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	a := mul(p.x, p.x)
	b := mul(p.y, p.y)
	c := mul(b, b)
	d := new(big.Int).Add(p.x, b)
	d = mul(d, d)
	d.Sub(d, a).Sub(d, c)
	d.Lsh(d, 1)
	mod(d)
	e := new(big.Int).Mul(a, big.NewInt(3))
	mod(e)
	f := mul(e, e)
	x := new(big.Int).Sub(f, new(big.Int).Lsh(d, 1))
	mod(x)
	y := new(big.Int).Sub(d, x)
	y = mul(e, y)
	y.Sub(y, new(big.Int).Lsh(c, 3))
	mod(y)
	z := mul(p.y, p.z)
	z.Lsh(z, 1)
	mod(z)
	return jac{x, y, z}
}

func (p jac) add(q jac) jac {
	if p.z.Sign() == 0 {
		return q
	}
	if q.z.Sign() == 0 {
		return p
	}
	z1, z2 := mul(p.z, p.z), mul(q.z, q.z)
	u1, u2 := mul(p.x, z2), mul(q.x, z1)
	s1, s2 := mul(mul(p.y, q.z), z2), mul(mul(q.y, p.z), z1)
	if u1.Cmp(u2) == 0 {
		if s1.Cmp(s2) != 0 {
			return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
		}
		return p.dbl()
	}
	h := new(big.Int).Sub(u2, u1)
	mod(h)
	r := new(big.Int).Sub(s2, s1)
	mod(r)
	h2 := mul(h, h)
	h3 := mul(h2, h)
	v := mul(u1, h2)
	x := mul(r, r)
	x.Sub(x, h3).Sub(x, v).Sub(x, v)
	mod(x)
	y := new(big.Int).Sub(v, x)
	y = mul(r, y)
	y.Sub(y, mul(s1, h3))
	mod(y)
	return jac{x, y, mul(h, mul(p.z, q.z))}
}

func (p jac) affine() Pt {
	if p.z.Sign() == 0 {
		return Inf
	}
	zi := new(big.Int).ModInverse(p.z, P)
	z2 := mul(zi, zi)
	return Pt{mul(p.x, z2), mul(p.y, mul(z2, zi))}
}

func toJac(p Pt) jac {
	if p.IsInf() {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	return jac{p.X, p.Y, big.NewInt(1)}
}

// Mul is k*p for any integer k.
func (p Pt) Mul(k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	if p.IsInf() || k.Sign() == 0 {
		return Inf
	}
	var tab [16]jac
	tab[0] = toJac(Inf)
	tab[1] = toJac(p)
	for i := 2; i < 16; i++ {
		tab[i] = tab[i-1].add(tab[1])
	}
	acc := toJac(Inf)
	bl := (k.BitLen() + 3) / 4
	for i := bl - 1; i >= 0; i-- {
		acc = acc.dbl().dbl().dbl().dbl()
		d := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if d != 0 {
			acc = acc.add(tab[d])
		}
	}
	return acc.affine()
}

var baseTab [64][16]jac

func init() {
	b := toJac(G)
	for i := range baseTab {
		baseTab[i][0] = toJac(Inf)
		for j := 1; j < 16; j++ {
			baseTab[i][j] = baseTab[i][j-1].add(b)
		}
		b = baseTab[i][15].add(b)
	}
}

// Base is k*G.
func Base(k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	acc := toJac(Inf)
	for i := range baseTab {
		d := k.Bit(4*i) | k.Bit(4*i+1)<<1 | k.Bit(4*i+2)<<2 | k.Bit(4*i+3)<<3
		if d != 0 {
			acc = acc.add(baseTab[i][d])
		}
	}
	return acc.affine()
}

// LiftX returns a point with the given x, if there is one.
func LiftX(x *big.Int) (Pt, bool) {
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x).Add(r, big.NewInt(7)).Mod(r, P)
	y := new(big.Int).ModSqrt(r, P)
	if y == nil {
		return Inf, false
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// Encode is the wire format of a point.
func (p Pt) Encode() []byte {
	if p.IsInf() {
		return []byte{0, 0, 0, 0}
	}
	return RawPoint(p.X.Bytes(), p.Y.Bytes())
}

// RawPoint is the wire format with arbitrary coordinates.
func RawPoint(x, y []byte) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint32(b, uint32(len(x)))
	binary.BigEndian.PutUint32(b[4:], uint32(len(y)))
	b = append(b, x...)
	return append(b, y...)
}

// ErrShort is returned for truncated encodings.
var ErrShort = errors.New("truncated")

// DecodePt reads a point from the wire format and returns the rest.
func DecodePt(b []byte) (Pt, []byte, error) {
	if len(b) < 4 {
		return Inf, nil, ErrShort
	}
	lx := binary.BigEndian.Uint32(b)
	if lx == 0 {
		return Inf, b[4:], nil
	}
	if len(b) < 8 {
		return Inf, nil, ErrShort
	}
	ly := binary.BigEndian.Uint32(b[4:])
	if lx > 32 || ly > 32 || uint32(len(b)-8) < lx+ly {
		return Inf, nil, ErrShort
	}
	x := new(big.Int).SetBytes(b[8 : 8+lx])
	y := new(big.Int).SetBytes(b[8+lx : 8+lx+ly])
	p := Pt{x, y}
	if !p.OnCurve() {
		return Inf, nil, errors.New("not on the curve")
	}
	return p, b[8+lx+ly:], nil
}

// Comm is an ElGamal commitment.
type Comm struct{ A, B Pt }

// Commit commits to v with randomness r under base h.
func Commit(h Pt, v, r *big.Int) Comm { return Comm{Base(r), h.Mul(r).Add(Base(v))} }

// Add composes.
func (c Comm) Add(d Comm) Comm { return Comm{c.A.Add(d.A), c.B.Add(d.B)} }

// Sub composes with the inverse.
func (c Comm) Sub(d Comm) Comm { return Comm{c.A.Sub(d.A), c.B.Sub(d.B)} }

// Mul exponentiates.
func (c Comm) Mul(k *big.Int) Comm { return Comm{c.A.Mul(k), c.B.Mul(k)} }

// Eq compares.
func (c Comm) Eq(d Comm) bool { return c.A.Eq(d.A) && c.B.Eq(d.B) }

// Encode is the wire format.
func (c Comm) Encode() []byte { return append(c.A.Encode(), c.B.Encode()...) }

// Open returns value*G given the discrete logarithm of the base.
func (c Comm) Open(dlogH *big.Int) Pt { return c.B.Sub(c.A.Mul(dlogH)) }

// DecodeComm reads a commitment.
func DecodeComm(b []byte) (Comm, []byte, error) {
	a, b, err := DecodePt(b)
	if err != nil {
		return Comm{}, nil, err
	}
	c, b, err := DecodePt(b)
	return Comm{a, c}, b, err
}

// Proof is the common form of EGKnow and EGRefresh proofs.
type Proof struct {
	Z1, Z2 *big.Int
	XY     Comm
}

// Encode is the wire format.
func (p Proof) Encode() []byte {
	a, b := p.Z1.Bytes(), p.Z2.Bytes()
	h := RawPoint(a, b)
	return append(h, p.XY.Encode()...)
}

// DecodeProof reads a proof.
func DecodeProof(b []byte) (Proof, []byte, error) {
	if len(b) < 8 {
		return Proof{}, nil, ErrShort
	}
	l1, l2 := binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	b = b[8:]
	if l1 > 64 || l2 > 64 || uint32(len(b)) < l1+l2 {
		return Proof{}, nil, ErrShort
	}
	p := Proof{Z1: new(big.Int).SetBytes(b[:l1]), Z2: new(big.Int).SetBytes(b[l1 : l1+l2])}
	var err error
	p.XY, b, err = DecodeComm(b[l1+l2:])
	return p, b, err
}

// Hash is HKDF-SHA256 (48 bytes, salt ThresholdECDSA, info H2F 0 1) modulo N, from HMAC alone.
func Hash(msg ...[]byte) *big.Int {
	m := hmac.New(sha256.New, []byte("ThresholdECDSA"))
	for _, b := range msg {
		m.Write(b)
	}
	prk := m.Sum(nil)
	info := []byte{'H', '2', 'F', 0, 1}
	var t, out []byte
	for i := byte(1); len(out) < 48; i++ {
		h := hmac.New(sha256.New, prk)
		h.Write(t)
		h.Write(info)
		h.Write([]byte{i})
		t = h.Sum(nil)
		out = append(out, t...)
	}
	x := new(big.Int).SetBytes(out[:48])
	return x.Mod(x, N)
}

// Interpolate returns the value at 0 of the polynomial through (xs[i], ys[i]) modulo N.
func Interpolate(xs []int64, ys []*big.Int) *big.Int {
	sum := new(big.Int)
	for i := range xs {
		sum.Add(sum, new(big.Int).Mul(Lagrange(xs, i), ys[i]))
	}
	return sum.Mod(sum, N)
}

// InterpolatePt does the same in the exponent.
func InterpolatePt(xs []int64, ys []Pt) Pt {
	sum := Inf
	for i := range xs {
		sum = sum.Add(ys[i].Mul(Lagrange(xs, i)))
	}
	return sum
}

// Lagrange is the i-th coefficient at 0.
func Lagrange(xs []int64, i int) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for j := range xs {
		if j == i {
			continue
		}
		num.Mul(num, big.NewInt(-xs[j]))
		den.Mul(den, big.NewInt(xs[i]-xs[j]))
		num.Mod(num, N)
		den.Mod(den, N)
	}
	num.Mul(num, den.ModInverse(den, N))
	return num.Mod(num, N)
}

// VerifyECDSA is textbook verification.
func VerifyECDSA(pub Pt, m, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 || pub.IsInf() {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(m, w)
	u2 := new(big.Int).Mul(r, w)
	q := Base(u1).Add(pub.Mul(u2))
	if q.IsInf() {
		return false
	}
	x := new(big.Int).Mod(q.X, N)
	return x.Cmp(r) == 0
}

// Contains reports whether the big-endian bytes of v, v >= 2^128, occur in data.
func Contains(data []byte, v *big.Int) bool {
	b := v.Bytes()
	return len(b) >= 16 && bytes.Contains(data, b)
}
