package coremon

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	pkg "gitlab.com/alephledger/threshold-ecdsa/pkg/crypto"
)

// C09 compares hashes with an independent derivation and looks at their spread.
var C09 = &mon.Monitor{
	Rule:    "one evaluation is one hash of a byte string (all lengths around the block sizes, random, single-bit, length-only and trailing-zero variants, edges of long strings, sub-slices of bigger buffers) compared with an HKDF written from HMAC alone, checked for range, for inequality with the hashes of all other strings of the run, and again later, from other goroutines and after the caller changed its buffer and the earlier result; the bits of all hashes are counted; distinct by string",
	MinEval: 3000,
	Run:     runC09,
}

func runC09(c *mon.Ctx) {
	if pkg.Q == nil || pkg.Q.Cmp(ref.N) != 0 {
		c.Violate("order", "the modulus is %x, not the order of the curve", pkg.Q)
	}
	var mx sync.Mutex
	seen := map[string][]byte{} // hash -> message
	done := map[string]bool{}
	var bits [256]int64
	total := int64(0)
	ask := func(m []byte) *big.Int {
		in := append([]byte{}, m...)
		var h *big.Int
		if !c.Guard("hash", fmt.Sprintf("hash of %x", in), func() { h = pkg.HashToBigInt(m) }) {
			return nil
		}
		if h == nil {
			c.Violate("hash", "no hash of %x", in)
			return nil
		}
		c.Eval("%x", in)
		if !bytes.Equal(in, m) {
			c.Violate("input", "hashing changes its input %x", in)
		}
		if h.Sign() < 0 || h.Cmp(ref.N) >= 0 {
			c.Violate("range", "hash of %x is %x, out of range", in, h)
		}
		if w := ref.Hash(in); h.Cmp(w) != 0 {
			c.Violate("value", "hash of %x (%d bytes) is %x, not %x", cut(in), len(in), h, w)
		}
		mx.Lock()
		if o, ok := seen[string(h.Bytes())]; ok && !bytes.Equal(o, in) {
			c.Violate("collision", "%x and %x have the same hash", cut(in), cut(o))
		}
		seen[string(h.Bytes())] = in
		if !done[string(in)] {
			done[string(in)] = true
			total++
			for i := range bits {
				bits[i] += int64(h.Bit(i))
			}
		}
		mx.Unlock()
		return h
	}
	// structured messages
	var lens []int
	for l := 0; l <= 300; l++ {
		lens = append(lens, l)
	}
	lens = append(lens, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537)
	if !c.Quick {
		lens = append(lens, 1<<20, 1<<20+1, 1<<22)
	}
	for _, l := range lens {
		ask(make([]byte, l))
		ask(bytes.Repeat([]byte{255}, l))
	}
	// very long ones, and changes at their ends
	huge := []int{1<<17 + 1, 1 << 20, 1<<20 + 1, 1<<21 + 77, 1<<23 + 1, 1<<24 + 1}
	if !c.Quick {
		huge = append(huge, 1<<26+1, 1<<28+1)
	}
	c.Parallel(len(huge), 6, func(i int) {
		m := make([]byte, huge[i])
		c.Rng("huge", i).Read(m)
		for v := 0; v < 4; v++ {
			switch v {
			case 1:
				m[len(m)-1] ^= 1
			case 2:
				m[0] ^= 1
			case 3:
				m[len(m)/2] ^= 1
			}
			desc := fmt.Sprintf("%d random bytes, change %d", huge[i], v)
			c.Guard("hash", "hash of "+desc, func() {
				h := pkg.HashToBigInt(m)
				c.Eval("%s", desc)
				if w := ref.Hash(m); h == nil || h.Cmp(w) != 0 {
					c.Violate("value", "hash of %s is %x, not %x", desc, h, w)
				}
				c.Count("huge_messages", 1)
			})
		}
	})
	r := c.Rng("messages")
	bases := [][]byte{nil, {0}, {1}, []byte("ThresholdECDSA"), {'H', '2', 'F', 0, 1}}
	for _, l := range []int{1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 144, 200, 600, 5000} {
		b := make([]byte, l)
		r.Read(b)
		bases = append(bases, b)
	}
	for i := 0; i < c.Pick(60, 2000); i++ {
		b := make([]byte, r.Intn(500))
		r.Read(b)
		bases = append(bases, b)
	}
	c.Parallel(len(bases), 8, func(i int) {
		r := c.Rng("variants", i)
		m := bases[i]
		ask(m)
		// single bits: all in the first and last bytes, some elsewhere
		for j := 0; j < len(m); j++ {
			if j > 8 && j < len(m)-8 && r.Intn(len(m)) > 20 {
				continue
			}
			v := append([]byte{}, m...)
			v[j] ^= 1 << uint(r.Intn(8))
			ask(v)
		}
		for k := 1; k <= 4; k++ {
			ask(append(append([]byte{}, m...), make([]byte, k)...))
			ask(append(make([]byte, k), m...))
			if len(m) > k {
				ask(m[:len(m)-k])
				ask(m[k:])
			}
		}
		for _, k := range []int{32, 64} {
			if pad := k - len(m)%k; len(m) > 0 {
				ask(append(append([]byte{}, m...), make([]byte, pad)...))
			}
		}
		ask(append(append([]byte{}, m...), m...))
		rev := append([]byte{}, m...)
		for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
			rev[a], rev[b] = rev[b], rev[a]
		}
		ask(rev)
		// the hash of a slice does not depend on what is around it, and does not write there
		buf := append(bytes.Repeat([]byte{170}, 40), append(append([]byte{}, m...), bytes.Repeat([]byte{171}, 40)...)...)
		keep := append([]byte{}, buf...)
		ask(buf[40 : 40+len(m)])
		if !bytes.Equal(buf, keep) {
			c.Violate("input", "hashing writes around its input")
		}
		// the caller may do as it likes with the result and with its buffer
		h := ask(m)
		if h != nil {
			h.SetInt64(7)
			h.Lsh(h, 300)
			w := append([]byte{}, m...)
			h2 := pkg.HashToBigInt(w)
			for j := range w {
				w[j] ^= 255
			}
			if h2.Cmp(ref.Hash(m)) != 0 {
				c.Violate("shared", "the hash of %x changes when an earlier result or the input buffer is changed", cut(m))
			}
			ask(m)
		}
	})
	// random messages for the spread
	c.Parallel(c.Pick(20000, 400000)/100, 8, func(i int) {
		r := c.Rng("spread", i)
		for j := 0; j < 100; j++ {
			b := make([]byte, 8+r.Intn(100))
			r.Read(b)
			ask(b)
		}
	})
	// all again, in another order, concurrently
	c.Parallel(8, 8, func(t int) {
		for k := range bases {
			m := bases[(k*(2*t+1)+t)%len(bases)]
			c.Trivial()
			if h := pkg.HashToBigInt(m); h.Cmp(ref.Hash(m)) != 0 {
				c.Violate("again", "hash of %x changed", cut(m))
			}
		}
	})
	// 8 standard deviations; the order is so near 2^256 that its bias is far below that
	c.Count("messages_in_spread", total)
	if total > 1000 {
		dev := int64(0)
		for int64(dev)*dev < 64*total/4 {
			dev++
		}
		for i, n := range bits {
			if n < total/2-dev || n > total/2+dev+1 {
				c.Violate("spread", "bit %d is set in %d of %d hashes", i, n, total)
			}
		}
	}
	c.Count("distinct_hashes", int64(len(seen)))
	c.Sample("hash of the empty string is %x", pkg.HashToBigInt(nil))
}

func cut(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}
