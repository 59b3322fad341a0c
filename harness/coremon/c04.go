package coremon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C04 decodes hostile bytes.
var C04 = &mon.Monitor{
	Rule:    "one evaluation is one byte string (random, or a valid encoding of a point, commitment or proof with bits flipped, lengths changed to small, huge or overflowing values, coordinates moved off the curve, onto the twist or above the field, bytes inserted, removed or repeated) decoded as one of the four types, watching for panics, memory allocated beyond 64 KiB + 64 times the input, and elements outside the group, and using whatever was decoded in every further operation; distinct by type and bytes",
	MinEval: 5000,
	Assume:  []string{"allocation is measured by runtime.MemStats.TotalAlloc around the call, in a process that does nothing else"},
	Run:     runC04,
}

func be32(n uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, n); return b }

// badPoint is the encoding of something that is not a group element (or an unusual form of one).
func badPoint(r *rand.Rand) []byte {
	p := ref.Base(RandScalar(r))
	x, y := p.X, p.Y
	switch r.Intn(16) {
	case 0:
		return ref.RawPoint(x.Bytes(), add(y, bi(1)).Bytes())
	case 1:
		return ref.RawPoint(add(x, bi(1)).Bytes(), y.Bytes())
	case 2:
		return ref.RawPoint(y.Bytes(), x.Bytes())
	case 3:
		// point of another curve y^2 = x^3 + b
		return ref.RawPoint(RandBits(r, 256).Bytes(), RandBits(r, 256).Bytes())
	case 4:
		return ref.RawPoint(add(x, ref.P).Bytes(), y.Bytes()) // 33 bytes
	case 5:
		// x below 2^256-p can be written with p added in 32 bytes
		for i := int64(1); ; i++ {
			if q, ok := ref.LiftX(bi(i)); ok {
				return ref.RawPoint(add(q.X, ref.P).Bytes(), q.Y.Bytes())
			}
		}
	case 6:
		for i := int64(1); ; i++ {
			if q, ok := LiftY(bi(i)); ok {
				return ref.RawPoint(q.X.Bytes(), add(q.Y, ref.P).Bytes())
			}
		}
	case 7:
		return ref.RawPoint([]byte{0}, []byte{0})
	case 8:
		return ref.RawPoint([]byte{0}, y.Bytes())
	case 9:
		return ref.RawPoint(x.Bytes(), nil)
	case 10:
		return ref.RawPoint(append([]byte{0}, x.Bytes()...), y.Bytes())
	case 11:
		return ref.RawPoint(x.Bytes(), append(make([]byte, r.Intn(40)), y.Bytes()...))
	case 12:
		return ref.RawPoint(ref.P.Bytes(), y.Bytes())
	case 13:
		return ref.RawPoint(bytes.Repeat([]byte{255}, 32), bytes.Repeat([]byte{255}, 32))
	case 14:
		return ref.RawPoint(x.Bytes(), sub(ref.P, add(y, bi(1))).Bytes())
	default:
		k := 1 + r.Intn(300)
		b := make([]byte, k)
		r.Read(b)
		return ref.RawPoint(b, y.Bytes())
	}
}

func goodPoint(r *rand.Rand) []byte {
	if r.Intn(5) == 0 {
		return ref.Inf.Encode()
	}
	es := EdgePoints()
	if r.Intn(3) == 0 {
		return es[r.Intn(len(es))].Encode()
	}
	return ref.Base(RandAnyScalar(r)).Encode()
}

var hugeLens = []uint32{0, 1, 31, 32, 33, 64, 100, 255, 256, 1 << 12, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 33, 1<<32 - 32, 1<<32 - 31, 1<<32 - 8, 1<<32 - 1}

func point(r *rand.Rand, bad int) []byte {
	if r.Intn(bad) == 0 {
		return badPoint(r)
	}
	return goodPoint(r)
}

func hostile(r *rand.Rand, kind int) []byte {
	var b []byte
	num := func() []byte {
		x := RandBits(r, 1+r.Intn(256)).Bytes()
		switch r.Intn(8) {
		case 0:
			x = nil
		case 1:
			x = make([]byte, r.Intn(80))
			r.Read(x)
		case 2:
			x = ref.N.Bytes()
		case 3:
			x = bytes.Repeat([]byte{255}, 32)
		}
		return x
	}
	bad := 2 + r.Intn(4)
	switch kind {
	case 0:
		b = point(r, bad)
	case 1:
		b = append(point(r, bad), point(r, bad)...)
	default:
		b = ref.RawPoint(num(), num())
		b = append(b, point(r, bad)...)
		b = append(b, point(r, bad)...)
	}
	for m := r.Intn(4); m > 0; m-- {
		if len(b) == 0 {
			break
		}
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i:i], b[i+1:]...)
		case 4:
			b = append(b[:i:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 5:
			// a length field at the front
			copy(b, be32(hugeLens[r.Intn(len(hugeLens))]))
		case 6:
			if len(b) >= 8 {
				copy(b[4:], be32(hugeLens[r.Intn(len(hugeLens))]))
			}
		case 7:
			if i+4 <= len(b) {
				copy(b[i:], be32(hugeLens[r.Intn(len(hugeLens))]))
			}
		case 8:
			b = append(b, b[i:]...)
		}
	}
	switch r.Intn(12) {
	case 0:
		b = make([]byte, r.Intn(120))
		r.Read(b)
	case 1:
		// two lengths whose sum wraps around
		l := hugeLens[r.Intn(len(hugeLens))]
		b = append(append(be32(l), be32(-l+uint32(r.Intn(80)))...), b...)
	}
	return b
}

// corpus are hostile inputs that are always tried.
func corpus() [][]byte {
	var out [][]byte
	for _, a := range hugeLens {
		out = append(out, be32(a))
		for _, b := range hugeLens {
			h := append(be32(a), be32(b)...)
			out = append(out, h, append(append([]byte{}, h...), bytes.Repeat([]byte{7}, 70)...), append(append([]byte{}, h...), ref.G.Encode()...))
		}
	}
	out = append(out, nil, []byte{0}, make([]byte, 3), make([]byte, 4), make([]byte, 8), make([]byte, 16), make([]byte, 100))
	for i := 0; i < 64; i++ {
		r := rand.New(rand.NewSource(int64(i)))
		out = append(out, badPoint(r), append(badPoint(r), ref.G.Encode()...), append(ref.G.Encode(), badPoint(r)...))
	}
	return out
}

func runC04(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(bi(12345)))
	st, st2 := f.Create(bi(5), bi(7)), f.Create(bi(5), bi(9))
	var before, after runtime.MemStats
	names := []string{"point", "commitment", "know", "refresh"}
	try := func(kind int, b []byte) {
		in := append([]byte{}, b...)
		desc := fmt.Sprintf("decoding as %s: %x", names[kind], in)
		c.Eval("%s", desc)
		var p curve.Point
		var e commitment.ElGamal
		var k zkpok.ZKEGKnow
		var rf zkpok.ZKEGRefresh
		var err error
		rd := bytes.NewReader(in)
		runtime.ReadMemStats(&before)
		ok := c.Guard("decode", desc, func() {
			switch kind {
			case 0:
				p, err = g.Decode(rd)
			case 1:
				err = e.Decode(rd)
			case 2:
				err = k.Decode(rd)
			case 3:
				err = rf.Decode(rd)
			}
		})
		runtime.ReadMemStats(&after)
		if !ok {
			return
		}
		used := after.TotalAlloc - before.TotalAlloc
		c.Max("max_alloc_bytes", int64(used))
		if used > uint64(64<<10+64*len(in)) {
			c.Violate("alloc", "%s\nallocates %d bytes for %d bytes of input", desc, used, len(in))
		}
		if !bytes.Equal(in, b) {
			c.Violate("input", "%s\nchanges the input", desc)
		}
		if err != nil {
			c.Count("rejected", 1)
			return
		}
		c.Count("accepted", 1)
		c.Guard("use", "using what was decoded: "+desc, func() {
			var enc []byte
			switch kind {
			case 0:
				enc = Enc(g, p)
			case 1:
				enc = EncComm(&e)
			case 2:
				enc = knowBytes(&k)
			case 3:
				enc = refrBytes(&rf)
			}
			// everything in it has to be a group element
			rest := enc
			var rerr error
			var pts []ref.Pt
			if kind >= 2 {
				var pr ref.Proof
				pr, rest, rerr = ref.DecodeProof(enc)
				pts = []ref.Pt{pr.XY.A, pr.XY.B}
			} else {
				for n := 0; n <= kind && rerr == nil; n++ {
					var q ref.Pt
					q, rest, rerr = ref.DecodePt(rest)
					pts = append(pts, q)
				}
			}
			if rerr != nil || len(rest) != 0 {
				c.Violate("element", "%s\nyields something that is not in the group: %x (%v)", desc, enc, rerr)
				return
			}
			switch kind {
			case 0:
				for _, s := range []*big.Int{bi(0), bi(1), bi(3), ref.N, sub(ref.N, bi(1))} {
					if !Same(g, g.ScalarMult(p, cp(s)), pts[0].Mul(s)) {
						c.Violate("use", "%s\ntimes %x is wrong", desc, s)
					}
				}
				if !Same(g, g.Add(p, p), pts[0].Add(pts[0])) || !Same(g, g.Add(p, g.Gen()), pts[0].Add(ref.G)) || !Same(g, g.Add(p, g.Neg(p)), ref.Inf) || !g.Equal(p, p) {
					c.Violate("use", "%s\ncomputes wrongly", desc)
				}
				commitment.NewElGamalFactory(p).Create(bi(3), bi(4))
			case 1:
				x := f.Neutral()
				x.Compose(&e, st)
				x.Exp(&e, bi(77))
				x.Inverse(&e)
				x.Compose(&e, &e)
				x.Compose(x, f.Neutral().Inverse(x))
				if !f.IsNeutral(x) || !e.Equal(&e, &e) {
					c.Violate("use", "%s\ncomputes wrongly", desc)
				}
				f.IsNeutral(&e)
				k := zkpok.ZKEGKnow{}
				pr := ref.Proof{Z1: bi(5), Z2: bi(6), XY: ref.Comm{A: ref.G, B: ref.G}}
				if k.Decode(bytes.NewReader(pr.Encode())) == nil {
					k.Verify(f, &e)
				}
				rf := zkpok.ZKEGRefresh{}
				if rf.Decode(bytes.NewReader(pr.Encode())) == nil {
					rf.Verify(f, &e, st)
					rf.Verify(f, st, &e)
				}
			case 2:
				if k.Verify(f, st) == nil {
					c.Violate("accepted", "%s\nverifies", desc)
				}
			case 3:
				if rf.Verify(f, st, st2) == nil {
					c.Violate("accepted", "%s\nverifies", desc)
				}
			}
		})
	}
	for _, b := range corpus() {
		for k := range names {
			if c.Violated() {
				return
			}
			try(k, b)
		}
	}
	// hostile tails: a valid first half followed by every corpus entry
	head := append(ref.RawPoint([]byte{1}, []byte{2}), ref.G.Encode()...)
	for i, b := range corpus() {
		if c.Violated() {
			return
		}
		try(1, append(append([]byte{}, ref.G.Encode()...), b...))
		try(2+i%2, append(append([]byte{}, head...), b...))
	}
	for i := 0; i < c.Pick(20000, 400000) && !c.Violated(); i++ {
		r := rand.New(rand.NewSource(c.Seed*1000003 + int64(i)))
		kind := i % 4
		b := hostile(r, kind)
		if i < 8 {
			c.Sample("%s from %x", names[kind], b)
		}
		try(kind, b)
	}
}
