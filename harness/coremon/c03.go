package coremon

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"math/rand"

	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// C03 sends sequences of values through hostile streams.
var C03 = &mon.Monitor{
	Rule:    "one evaluation is one sequence of up to 12 points, commitments and proofs (with neutral elements, short coordinates and short proof components made likely) written to one stream and read back under a random splitting of the reads, checking values, exact consumption and re-encoding; or one truncation of an encoding at one byte, or one writer failing at one byte, checking that an error comes back; or one value encoded after being computed in several ways; distinct by content and splitting",
	MinEval: 2000,
	Assume:  []string{"values are compared through Equal, Verify and the reference decoder"},
	Run:     runC03,
}

// value is anything that can be written and read.
type value struct {
	name   string
	encode func(w io.Writer) error
	// decode reads one value and returns its re-encoding, and whether it equals the original
	decode func(r io.Reader) ([]byte, bool, error)
	want   []byte // expected encoding by the reference, nil if not determined
}

func bytesOf(v value) ([]byte, error) {
	b := &bytes.Buffer{}
	err := v.encode(b)
	return b.Bytes(), err
}

func pointValue(g curve.Group, p curve.Point, want ref.Pt) value {
	return value{"point " + want.String(), func(w io.Writer) error { return g.Encode(p, w) }, func(r io.Reader) ([]byte, bool, error) {
		q, err := g.Decode(r)
		if err != nil {
			return nil, false, err
		}
		b := &bytes.Buffer{}
		err = g.Encode(q, b)
		return b.Bytes(), err == nil && g.Equal(p, q) && g.Equal(q, p), nil
	}, want.Encode()}
}

func commValue(c *commitment.ElGamal, want ref.Comm, old *commitment.ElGamal) value {
	return value{"commitment " + want.A.String() + ";" + want.B.String(), c.Encode, func(r io.Reader) ([]byte, bool, error) {
		d := &commitment.ElGamal{}
		if old != nil {
			x := *old
			d = &x
		}
		if err := d.Decode(r); err != nil {
			return nil, false, err
		}
		b := &bytes.Buffer{}
		err := d.Encode(b)
		return b.Bytes(), err == nil && d.Equal(c, d) && c.Equal(d, c), nil
	}, want.Encode()}
}

// scriptSmall makes the next nonces small so that proofs have short components.
func scriptSmall(r *rand.Rand, n int) {
	var b []byte
	for i := 0; i < n; i++ {
		x := make([]byte, 32)
		k := r.Intn(33)
		r.Read(x[k:])
		if k == 0 {
			x[0] = 1
		}
		b = append(b, x...)
	}
	rnd.S.Script(b)
}

func randValue(r *rand.Rand, g curve.Group, f *commitment.ElGamalFactory, h ref.Pt) value {
	es := EdgePoints()
	rp := func() ref.Pt {
		switch r.Intn(4) {
		case 0:
			return ref.Inf
		case 1:
			return es[r.Intn(len(es))]
		default:
			return ref.Base(RandAnyScalar(r))
		}
	}
	switch r.Intn(6) {
	case 0, 1:
		p := rp()
		return pointValue(g, FromRef(g, p), p)
	case 2:
		cc := ref.Comm{A: rp(), B: rp()}
		var old *commitment.ElGamal
		if r.Intn(2) == 0 {
			old = f.Create(bi(int64(r.Intn(3))), RandScalar(r))
		}
		c := CommFrom(cc)
		if c == nil {
			c = f.Neutral()
			cc = ref.Comm{}
		}
		return commValue(c, cc, old)
	case 3:
		v, rr := RandAnyScalar(r), RandAnyScalar(r)
		if r.Intn(3) == 0 {
			v, rr = bi(0), bi(0)
		}
		return commValue(f.Create(cp(v), cp(rr)), ref.Commit(h, v, rr), nil)
	case 4:
		v, rr := RandScalar(r), RandScalar(r)
		if r.Intn(2) == 0 {
			// with a zero witness the responses are the (short) nonces themselves
			v, rr = bi(0), bi(0)
			scriptSmall(r, 2)
		}
		st := f.Create(cp(v), cp(rr))
		p, err := zkpok.NewZKEGKnow(f, st, cp(v), cp(rr))
		if err != nil {
			return value{name: "know: " + err.Error()}
		}
		return value{fmt.Sprintf("know %x %x", v, rr), p.Encode, func(rd io.Reader) ([]byte, bool, error) {
			var q zkpok.ZKEGKnow
			if err := q.Decode(rd); err != nil {
				return nil, false, err
			}
			return knowBytes(&q), q.Verify(f, st) == nil, nil
		}, nil}
	default:
		v, rr, s := RandScalar(r), RandScalar(r), RandScalar(r)
		if r.Intn(2) == 0 {
			s = bi(0)
			scriptSmall(r, 1)
		}
		c1, c2 := f.Create(cp(v), cp(rr)), f.Create(v, add(rr, s))
		p, err := zkpok.NewZKEGRefresh(f, c1, c2, cp(s))
		if err != nil {
			return value{name: "refresh: " + err.Error()}
		}
		return value{fmt.Sprintf("refresh %x %x %x", v, rr, s), p.Encode, func(rd io.Reader) ([]byte, bool, error) {
			var q zkpok.ZKEGRefresh
			if err := q.Decode(rd); err != nil {
				return nil, false, err
			}
			return refrBytes(&q), q.Verify(f, c1, c2) == nil, nil
		}, nil}
	}
}

func runC03(c *mon.Ctx) {
	g := curve.NewSecp256k1Group()
	kh := RandScalar(c.Rng("h"))
	h := ref.Base(kh)
	f := commitment.NewElGamalFactory(g.ScalarBaseMult(cp(kh)))
	c.Parallel(c.Pick(500, 8000), 8, func(i int) {
		r := c.Rng("seq", i)
		c.Guard("stream", fmt.Sprintf("sequence %d", i), func() {
			n := 1 + r.Intn(12)
			var vals []value
			var encs [][]byte
			buf := &bytes.Buffer{}
			name := ""
			for len(vals) < n {
				v := randValue(r, g, f, h)
				if v.encode == nil {
					c.Violate("make", "making a value: %s", v.name)
					return
				}
				before := buf.Len()
				if err := v.encode(buf); err != nil {
					c.Violate("encode", "%s: %v", v.name, err)
					return
				}
				e := append([]byte{}, buf.Bytes()[before:]...)
				if v.want != nil && !bytes.Equal(e, v.want) {
					c.Violate("encoding", "%s\nis encoded as %x\nwant %x", v.name, e, v.want)
				}
				if e2, err := bytesOf(v); err != nil || !bytes.Equal(e, e2) {
					c.Violate("encoding", "%s\nis encoded as %x and then as %x", v.name, e, e2)
				}
				vals, encs = append(vals, v), append(encs, e)
				name += v.name + "\n"
			}
			all := buf.Bytes()
			for m := 0; m < 4; m++ {
				rd := &splitReader{b: append([]byte{}, all...), r: r, max: []int{1, 3, 40, 100000}[m], zero: r.Intn(2) == 0, withEOF: r.Intn(2) == 0}
				c.Eval("%d %d %x %v %v", i, m, all, rd.zero, rd.withEOF)
				at := 0
				for j, v := range vals {
					e, same, err := v.decode(rd)
					at += len(encs[j])
					if err != nil {
						c.Violate("decode", "value %d of the stream %x, reads up to %d bytes: %v\n%s", j, all, rd.max, err, name)
						break
					}
					if !same || !bytes.Equal(e, encs[j]) {
						c.Violate("roundtrip", "value %d comes back as %x from %x (same: %v), reads up to %d bytes\n%s", j, e, encs[j], same, rd.max, v.name)
						break
					}
					c.Count("values_read_back", 1)
					if rd.read != at {
						c.Violate("consumed", "decoding value %d (%s) consumed %d bytes of the stream, its encodings end at %d", j, v.name, rd.read, at)
						break
					}
				}
			}
			c.Sample("%d values, %d bytes: %x", n, len(all), all)
			// a stream that ends inside a value, and a writer that fails inside it
			v, e := vals[len(vals)-1], encs[len(vals)-1]
			for k := 0; k < len(e); k++ {
				c.Eval("cut %x %d", e, k)
				c.Count("truncations", 1)
				rd := &splitReader{b: append([]byte{}, e[:k]...), r: r, max: 1 + r.Intn(64), withEOF: r.Intn(2) == 0}
				if _, _, err := v.decode(rd); err == nil {
					c.Violate("truncated", "%s\nis decoded from the first %d of %d bytes %x", v.name, k, len(e), e)
				}
				w := &failWriter{left: k}
				if err := v.encode(w); err == nil {
					c.Violate("writer", "%s\nencoding to a writer failing after %d of %d bytes reports no error", v.name, k, len(e))
				}
			}
			// ... and a writer that reports an error having taken everything
			for call := 1; call <= 20; call++ {
				w := &lateWriter{call: call}
				err := v.encode(w)
				if !w.failed {
					break
				}
				c.Eval("late %x %d", e, call)
				c.Count("failing_writes", 1)
				if err == nil {
					c.Violate("writer", "%s\nencoding to a writer whose write call %d fails reports no error", v.name, call)
				}
			}
		})
	})
	// equal values computed in different ways have one encoding
	c.Parallel(c.Pick(150, 2000), 8, func(i int) {
		r := c.Rng("canon", i)
		k := RandScalar(r)
		if i == 0 {
			k = bi(0)
		}
		m := RandScalar(r)
		c.Guard("canonical", fmt.Sprintf("k=%x", k), func() {
			n := ref.N
			ways := []curve.Point{
				g.ScalarBaseMult(cp(k)), g.ScalarBaseMult(add(k, n)), g.ScalarMult(g.Gen(), cp(k)),
				g.Add(g.ScalarBaseMult(cp(m)), g.ScalarBaseMult(new(big.Int).Mod(sub(k, m), n))),
				g.Neg(g.ScalarBaseMult(sub(n, k))), g.Neg(g.Neg(g.ScalarBaseMult(cp(k)))),
				g.Add(g.Neutral(), g.ScalarBaseMult(cp(k))),
				g.ScalarMult(g.ScalarBaseMult(cp(m)), new(big.Int).Mod(mul(k, new(big.Int).ModInverse(m, n)), n)),
			}
			want := ref.Base(k).Encode()
			for j, p := range ways {
				c.Eval("canon %x %d", k, j)
				c.Count("canonical_encodings", 1)
				if e := Enc(g, p); !bytes.Equal(e, want) {
					c.Violate("canonical", "%x*G computed in way %d is encoded as %x, want %x", k, j, e, want)
				}
			}
			rr := RandScalar(r)
			x := f.Create(cp(k), cp(rr))
			y := f.Neutral()
			y.Compose(f.Create(cp(m), cp(m)), f.Create(new(big.Int).Mod(sub(k, m), n), new(big.Int).Mod(sub(rr, m), n)))
			z := f.Neutral().Inverse(f.Create(sub(n, k), sub(n, rr)))
			want = ref.Commit(h, k, rr).Encode()
			for j, p := range []*commitment.ElGamal{x, y, z} {
				if e := EncComm(p); !bytes.Equal(e, want) {
					c.Violate("canonical", "commitment to (%x, %x) computed in way %d is encoded as %x, want %x", k, rr, j, e, want)
				}
			}
		})
	})
}

type lateWriter struct {
	call   int
	failed bool
}

func (w *lateWriter) Write(p []byte) (int, error) {
	w.call--
	if w.call == 0 {
		w.failed = true
		return len(p), errWriter
	}
	return len(p), nil
}
