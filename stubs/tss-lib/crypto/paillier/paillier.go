// Package paillier is a stand-in for github.com/binance-chain/tss-lib/crypto/paillier, which cannot
// be fetched here. It has the same API and semantics (argument checks included), with ordinary
// instead of safe primes so that keys are made quickly.
package paillier

import (
	"crypto/rand"
	"errors"
	"math/big"
	"time"
)

type (
	// PublicKey is a Paillier public key.
	PublicKey struct {
		N *big.Int
	}
	// PrivateKey is a Paillier private key.
	PrivateKey struct {
		PublicKey
		LambdaN, // lcm(p-1, q-1)
		PhiN *big.Int // (p-1) * (q-1)
	}
)

// ErrMessageTooLong is returned for arguments out of range.
var ErrMessageTooLong = errors.New("the message is too large or < 0")

// ErrMessageMalFormed is returned for ciphertexts that are not invertible.
var ErrMessageMalFormed = errors.New("the message is mal-formed")

var one = big.NewInt(1)

// GenerateKeyPair generates a key pair.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, optionalConcurrency ...int) (*PrivateKey, *PublicKey, error) {
	for {
		p, err := rand.Prime(rand.Reader, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := rand.Prime(rand.Reader, modulusBitLen-modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		if p.Cmp(q) == 0 {
			continue
		}
		n := new(big.Int).Mul(p, q)
		p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
		phi := new(big.Int).Mul(p1, q1)
		if new(big.Int).GCD(nil, nil, phi, n).Cmp(one) != 0 {
			continue
		}
		lambda := new(big.Int).Div(phi, new(big.Int).GCD(nil, nil, p1, q1))
		pub := &PublicKey{N: n}
		return &PrivateKey{PublicKey: *pub, LambdaN: lambda, PhiN: phi}, pub, nil
	}
}

// NSquare returns N^2.
func (k *PublicKey) NSquare() *big.Int { return new(big.Int).Mul(k.N, k.N) }

// Gamma returns N+1.
func (k *PublicKey) Gamma() *big.Int { return new(big.Int).Add(k.N, one) }

// AsInts returns the components of the key.
func (k *PublicKey) AsInts() []*big.Int { return []*big.Int{k.N, k.Gamma()} }

// EncryptAndReturnRandomness encrypts m.
func (k *PublicKey) EncryptAndReturnRandomness(m *big.Int) (c, x *big.Int, err error) {
	if m.Sign() < 0 || m.Cmp(k.N) >= 0 {
		return nil, nil, ErrMessageTooLong
	}
	for {
		x, err = rand.Int(rand.Reader, k.N)
		if err != nil {
			return nil, nil, err
		}
		if x.Sign() > 0 && new(big.Int).GCD(nil, nil, x, k.N).Cmp(one) == 0 {
			break
		}
	}
	n2 := k.NSquare()
	gm := new(big.Int).Exp(k.Gamma(), m, n2)
	xn := new(big.Int).Exp(x, k.N, n2)
	c = gm.Mul(gm, xn)
	return c.Mod(c, n2), x, nil
}

// Encrypt encrypts m.
func (k *PublicKey) Encrypt(m *big.Int) (*big.Int, error) {
	c, _, err := k.EncryptAndReturnRandomness(m)
	return c, err
}

// HomoMult returns an encryption of m*dec(c1).
func (k *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Sign() < 0 || m.Cmp(k.N) >= 0 {
		return nil, ErrMessageTooLong
	}
	n2 := k.NSquare()
	if c1.Sign() < 0 || c1.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd returns an encryption of dec(c1)+dec(c2).
func (k *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := k.NSquare()
	for _, c := range []*big.Int{c1, c2} {
		if c.Sign() < 0 || c.Cmp(n2) >= 0 {
			return nil, ErrMessageTooLong
		}
	}
	r := new(big.Int).Mul(c1, c2)
	return r.Mod(r, n2), nil
}

// Decrypt decrypts c.
func (k *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	n2 := k.NSquare()
	if c.Sign() < 0 || c.Cmp(n2) >= 0 {
		return nil, ErrMessageTooLong
	}
	if new(big.Int).GCD(nil, nil, c, n2).Cmp(one) > 0 {
		return nil, ErrMessageMalFormed
	}
	l := func(u *big.Int) *big.Int { t := new(big.Int).Sub(u, one); return t.Div(t, k.N) }
	lc := l(new(big.Int).Exp(c, k.LambdaN, n2))
	lg := l(new(big.Int).Exp(k.Gamma(), k.LambdaN, n2))
	inv := new(big.Int).ModInverse(lg, k.N)
	r := lc.Mul(lc, inv)
	return r.Mod(r, k.N), nil
}
