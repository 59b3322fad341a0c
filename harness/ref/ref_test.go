package ref

import (
	"crypto/sha256"
	"io"
	"math/big"
	"testing"

	"golang.org/x/crypto/hkdf"
)

func TestRef(t *testing.T) {
	if !G.OnCurve() || !G.Mul(N).IsInf() || !Base(N).IsInf() {
		t.Fatal("base")
	}
	acc := Inf
	for i := int64(0); i < 40; i++ {
		if !acc.Eq(Base(big.NewInt(i))) || !acc.Eq(G.Mul(big.NewInt(i))) {
			t.Fatal(i)
		}
		acc = acc.Add(G)
	}
	k := new(big.Int).Sub(N, big.NewInt(1))
	if !Base(k).Eq(G.Neg()) || !G.Mul(k).Eq(G.Neg()) {
		t.Fatal("neg")
	}
	if !G.Mul(Lambda).Eq(Pt{mul(Beta, G.X), G.Y}) {
		t.Fatal("lambda")
	}
	h := Hash([]byte("abc"))
	var b [48]byte
	io.ReadFull(hkdf.New(sha256.New, []byte("abc"), []byte("ThresholdECDSA"), []byte{'H', '2', 'F', 0, 1}), b[:])
	x := new(big.Int).SetBytes(b[:])
	if x.Mod(x, N).Cmp(h) != 0 {
		t.Fatal("hash")
	}
	a := new(big.Int).SetBytes(b[:40])
	p := Base(a)
	if !p.Mul(h).Eq(Base(new(big.Int).Mul(a, h))) {
		t.Fatal("mul")
	}
}

func BenchmarkMul(b *testing.B) {
	k := Hash([]byte("abc"))
	for i := 0; i < b.N; i++ {
		G.Mul(k)
	}
}
func BenchmarkBase(b *testing.B) {
	k := Hash([]byte("abc"))
	for i := 0; i < b.N; i++ {
		Base(k)
	}
}
