package fullmon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// C19 lets one party send hostile bytes.
var C19 = &mon.Monitor{
	Level:   "fault_enumeration",
	Rule:    "one evaluation is one operation (key generation, generation, resharing, revealing, exponentiation, multiplications, Diffie-Hellman check, initialisation, presigning, signing) in which one party's message of one round is replaced for one or all receivers by hostile bytes of one kind, or one round whose frames are hostile, or one connection set-up with hostile connections: no party panics or crashes, all operations end, undecodable messages are reported as errors, the attacker's peers can go on, no single object allocated by the code is out of proportion (allocation profile), and in the sequential part the total allocation stays within a bound of that of the honest run plus the bytes sent; distinct by operation, round, kind, receiver and repetition",
	MinEval: 700,
	Assume:  []string{"a party that reports an error dies, closing its connections", "an attacker that sends nothing at all is the subject of C21"},
	Run:     runC19,
}

const (
	hEmpty = iota
	hPrefix
	hHeader
	hNoise
	hNoiseLong
	hLen32
	hLen32Mid
	hLenBE
	hLen64
	hLenOff
	hLenZero
	hLenFields
	hExtend
	hRepeat
	hOnes
	hZeros
	hTiny
	hOffCurve
	hBadCoord
	hNeutral
	hOwn
	hSwap
	hHugeInt
	hCipher
	hFlip
	hScalar
	hFrame
	hKinds
)

var hostileNames = []string{"empty", "a strict prefix", "a part of the header", "noise", "noise of another length", "a length field of 2^27 and more", "a length field at a random place", "a big-endian length field", "a length field of 64 bits", "a length field off by a few",
	"a length field of zero", "all length fields wrong", "noise appended", "repeated", "all ones", "all zeroes", "one to eight bytes", "a point off the curve", "coordinates out of range", "neutral points", "the receiver's own message", "halves swapped", "an integer of 100000 bytes", "an extreme ciphertext", "a bit flipped", "a number of a proof changed", "a frame of another sender or round, or a short one"}

// lengths are the places that look like length fields.
func lengths(d []byte) []int {
	var out []int
	for i := 0; i+4 <= len(d) && i < 4000; i++ {
		le, be := binary.LittleEndian.Uint32(d[i:]), binary.BigEndian.Uint32(d[i:])
		if le > 0 && le <= uint32(len(d)) || be > 0 && be <= uint32(len(d)) || i+2 <= len(d) && (binary.LittleEndian.Uint16(d[i:]) == 33 || binary.LittleEndian.Uint16(d[i:]) == 32) {
			out = append(out, i)
		}
	}
	return out
}

var hugeLens = []uint32{1 << 27, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1<<32 - 8, 1<<32 - 9, 0x0a000000}

// hostile makes hostile bytes of a message. own is the message the receiver sent, n2 the squares of the moduli.
func hostile(r *rand.Rand, kind int, data, own []byte, n2 []*big.Int) []byte {
	d := append([]byte{}, data...)
	le := binary.LittleEndian
	noise := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	place := func() int {
		if ls := lengths(d); len(ls) > 0 && r.Intn(4) > 0 {
			if r.Intn(2) == 0 {
				return ls[0]
			}
			return ls[r.Intn(len(ls))]
		}
		if len(d) <= 8 {
			d = append(d, make([]byte, 9)...)
		}
		return r.Intn(len(d) - 8)
	}
	room := func(i, n int) {
		if i+n > len(d) {
			d = append(d, make([]byte, i+n-len(d))...)
		}
	}
	switch kind {
	case hEmpty:
		return []byte{}
	case hPrefix:
		if len(d) > 0 {
			d = d[:r.Intn(len(d))]
		}
	case hHeader:
		if k := r.Intn(12); k < len(d) {
			d = d[:k]
		}
	case hNoise:
		r.Read(d)
	case hNoiseLong:
		return noise(1 + r.Intn(1<<uint(2+r.Intn(15))))
	case hLen32:
		i := place()
		room(i, 4)
		le.PutUint32(d[i:], hugeLens[r.Intn(len(hugeLens))])
	case hLen32Mid:
		if len(d) < 5 {
			d = append(d, noise(8)...)
		}
		le.PutUint32(d[r.Intn(len(d)-4):], hugeLens[r.Intn(len(hugeLens))])
	case hLenBE:
		i := place()
		room(i, 4)
		binary.BigEndian.PutUint32(d[i:], hugeLens[r.Intn(len(hugeLens))])
	case hLen64:
		i := place()
		room(i, 8)
		le.PutUint64(d[i:], []uint64{1 << 40, 1<<62 + 5, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(5)])
	case hLenOff:
		i := place()
		room(i, 4)
		if r.Intn(2) == 0 {
			le.PutUint32(d[i:], le.Uint32(d[i:])+uint32(r.Intn(9)-4))
		} else {
			le.PutUint16(d[i:], le.Uint16(d[i:])+uint16(r.Intn(9)-4))
		}
	case hLenZero:
		i := place()
		room(i, 4)
		copy(d[i:i+1+r.Intn(4)], []byte{0, 0, 0, 0})
	case hLenFields:
		for _, i := range lengths(d) {
			if r.Intn(3) == 0 {
				le.PutUint32(d[i:], hugeLens[r.Intn(len(hugeLens))])
			}
		}
	case hExtend:
		d = append(d, noise(1<<uint(r.Intn(16)))...)
	case hFlip:
		if len(d) > 0 {
			d[r.Intn(len(d))] ^= 1 << uint(r.Intn(8))
		}
	case hScalar:
		// numbers follow their lengths
		var at []int
		for i := 0; i+40 < len(d); i++ {
			if l := binary.BigEndian.Uint32(d[i:]); l > 28 && l <= 32 {
				if _, _, err := ref.DecodeProof(d[i:]); err == nil {
					at = append(at, i)
				}
			}
		}
		if len(at) == 0 {
			if len(d) > 0 {
				d[len(d)-1] ^= 1
			}
			break
		}
		i := at[len(at)-1]
		if r.Intn(3) == 0 {
			i = at[r.Intn(len(at))]
		}
		d[i+8+r.Intn(24)] ^= 1
	case hRepeat:
		d = bytes.Repeat(d, 2+r.Intn(30))
	case hOnes:
		return bytes.Repeat([]byte{0xff}, 1+r.Intn(100000))
	case hZeros:
		return make([]byte, 1+r.Intn(100000))
	case hTiny:
		return noise(1 + r.Intn(8))
	case hOffCurve, hBadCoord, hNeutral:
		all := r.Intn(2) == 0
		for off := 0; off+8 < len(d); off++ {
			p, rest, err := ref.DecodePt(d[off:])
			if err != nil || p.IsInf() {
				continue
			}
			var q []byte
			switch {
			case kind == hNeutral:
				q = ref.Inf.Encode()
			case kind == hOffCurve:
				q = ref.RawPoint(p.X.Bytes(), add(p.Y, bi(1)).Bytes())
				if r.Intn(3) == 0 {
					q = ref.RawPoint(nil, nil)
				}
			default:
				x, y := p.X, p.Y
				switch r.Intn(4) {
				case 0:
					x = add(x, ref.P)
				case 1:
					y = add(y, ref.P)
				case 2:
					y = new(big.Int).Lsh(y, uint(8*r.Intn(1000)))
				case 3:
					x = new(big.Int).SetBytes(noise(300))
				}
				q = ref.RawPoint(x.Bytes(), y.Bytes())
			}
			d = append(append(append([]byte{}, d[:off]...), q...), rest...)
			off += len(q) - 1
			if !all {
				break
			}
		}
	case hOwn:
		return append([]byte{}, own...)
	case hSwap:
		h := len(d) / 2
		d = append(append([]byte{}, d[h:]...), d[:h]...)
	case hHugeInt:
		return append([]byte{1}, noise(100000)...)
	case hCipher:
		n := n2[r.Intn(len(n2))]
		root := new(big.Int).Sqrt(n)
		v := []*big.Int{bi(0), bi(1), n, sub(n, bi(1)), add(n, bi(1)), root, mul(root, bi(2)), sub(root, bi(1)), add(root, bi(1)), mul(n, n), mul(root, ref.N), ref.N, ref.P}[r.Intn(13)]
		return v.Bytes()
	}
	return d
}

// certain tells that bytes cannot be a message of an operation that starts with points, proofs or lengths.
func certain(kind int, data, sent []byte) bool {
	switch kind {
	case hEmpty, hPrefix, hHeader, hTiny:
		return len(sent) < len(data) && bytes.HasPrefix(data, sent)
	}
	return false
}

type attack struct {
	op          string
	n, t        int
	round, kind int
	all         bool
	rep         int
	// what the same party sends in the round after, if not 0
	next int
}

func (a attack) String() string {
	who := "one receiver"
	if a.all {
		who = "all receivers"
	}
	if a.kind < 0 {
		return fmt.Sprintf("%s by %d honest parties, threshold %d", a.op, a.n, a.t)
	}
	then := ""
	if a.next > 0 {
		then = ", and then " + hostileNames[a.next]
	}
	return fmt.Sprintf("%s by %d parties, threshold %d: message of round %d for %s: %s%s (repetition %d)", a.op, a.n, a.t, a.round, who, hostileNames[a.kind], then, a.rep)
}

// strict are the operations all of whose messages have to be parsed to their end.
var strict = map[string]bool{"Gen": true, "GenExpReveal": true, "Reshare": true, "CheckDH": true, "Init": true, "Presign": true}

// whole are those that cannot do without a message.
func whole(op string) bool { return op != "Reveal" && op != "Exp" && op != "Sign" }

// badFrame makes a frame that is none of this round.
func badFrame(r *rand.Rand, raw []byte) []byte {
	b := append([]byte{}, raw...)
	if r.Intn(4) == 0 {
		l := r.Intn(10)
		binary.LittleEndian.PutUint64(b, uint64(l))
		return b[:8+l]
	}
	b[8+r.Intn(10)] ^= 1 << uint(r.Intn(8))
	return b
}

var opRounds = []struct {
	op     string
	rounds int
}{{"Gen", 1}, {"GenExpReveal", 2}, {"Reshare", 6}, {"Reveal", 1}, {"Exp", 1}, {"PrivMult", 2}, {"Mult", 4}, {"CheckDH", 3}, {"Init", 4}, {"Presign", 28}, {"Sign", 3}}

// prepared is an operation ready to be run by all parties.
type prepared struct {
	k   *kit
	run func() []error
	// after checks what the survivors can still do
	after func(ok []int) []error
}

func prepare(k *kit, a attack, r *rand.Rand) *prepared {
	p := &prepared{k: k}
	privs, pubs := paillierKeys(k.N, 1024)
	switch a.op {
	case "Gen":
		p.run = func() []error {
			ads, errs := k.gen("x")
			p.after = func(ok []int) []error {
				return k.SomeCut(ok, func(q int) error {
					tds, err := ads[q].Reshare(uint16(a.t))
					if err == nil {
						_, err = tds.Exp()
					}
					return err
				})
			}
			return errs
		}
	case "GenExpReveal":
		p.run = func() []error { _, errs := k.ger("x"); return errs }
	case "Reshare":
		d := k.deal("x")
		if d == nil {
			return nil
		}
		p.run = func() []error {
			tds, errs := k.reshare(d.ads, a.t)
			p.after = func(ok []int) []error {
				return k.SomeCut(ok, func(q int) error { _, err := tds[q].Reveal(); return err })
			}
			return errs
		}
	case "Reveal", "Exp":
		d, tds := k.shared(a.t)
		if d == nil {
			return nil
		}
		p.run = func() []error {
			if a.op == "Reveal" {
				_, errs := k.reveal(k.alive(), tds)
				return errs
			}
			_, errs := k.exp(k.alive(), tds)
			return errs
		}
	case "PrivMult":
		p.run = func() []error {
			return k.AllCut(func(q int) error {
				_, err := arith.PrivMult(bi(int64(q)), bi(5), q, k.N, k.srv[q], privs[q], pubs[q], pubs)
				return err
			})
		}
	case "Mult":
		x, y := k.deal("x"), k.deal("y")
		if x == nil || y == nil {
			return nil
		}
		p.run = func() []error { _, errs := k.mult(x.ads, y.ads, "z", privs, pubs); return errs }
	case "CheckDH":
		keys, errs := k.ger("x")
		if !k.ok("GenExpReveal", errs) {
			return nil
		}
		e := coremon.RandScalar(r)
		p.run = func() []error {
			return k.AllCut(func(q int) error {
				return arith.CheckDH(k.g.ScalarBaseMult(e), k.g.ScalarMult(keys[q].PublicKey(), e), k.g, keys[q])
			})
		}
	case "Init":
		p.run = func() []error {
			return k.AllCut(func(q int) error { _, err := tecdsa.Init(uint16(q), uint16(k.N), k.srv[q]); return err })
		}
	case "Presign", "Sign":
		w := k.signers(r)
		if w == nil {
			return nil
		}
		if a.op == "Presign" {
			p.run = func() []error { return k.AllCut(func(q int) error { return w.proto[q].Presign(uint16(a.t)) }) }
			break
		}
		if !k.ok("Presign", w.presignErrs(k.alive(), a.t)) {
			return nil
		}
		p.run = func() []error {
			return k.AllCut(func(q int) error { _, err := w.proto[q].Sign(bi(77)); return err })
		}
	}
	return p
}

// attackRun runs one attack and judges it. It returns the bytes allocated while it ran and the hostile bytes sent.
func attackRun(c *mon.Ctx, r *rand.Rand, a attack, hot bool) (uint64, uint64, bool) {
	o := simnet.Opts{N: a.n}
	if !hot && r.Intn(5) == 0 {
		o = netOpts(r, a.n)
	}
	k := newKit(c, r, o, a.String())
	if k == nil {
		return 0, 0, false
	}
	defer c.Begin("%s", k.desc)()
	defer k.Down()
	p := prepare(k, a, r)
	if p == nil {
		return 0, 0, false
	}
	from := r.Intn(a.n)
	victim := (from + 1 + r.Intn(a.n-1)) % a.n
	var n2 []*big.Int
	_, pubs := paillierKeys(a.n, 1024)
	for _, q := range pubs {
		n2 = append(n2, mul(q.N, q.N))
	}
	var sent uint64
	var mx sync.Mutex
	var bad []byte
	made, sure := false, false
	reached := map[int]bool{}
	if a.kind >= 0 {
		own := map[[2]int][]byte{}
		k.rewriteRaw(func(rd int, f *simnet.Frame) []byte {
			mx.Lock()
			defer mx.Unlock()
			own[[2]int{rd, int(f.From)}] = f.Data
			if int(f.From) != from || !a.all && int(f.To) != victim {
				return nil
			}
			if rd == a.round+1 && a.next > 0 {
				x := own[[2]int{rd, int(f.To)}]
				b := hostile(r, a.next, f.Data, x, n2)
				if b == nil {
					b = []byte{}
				}
				atomic.AddUint64(&sent, uint64(len(b)))
				c.Count("second_messages", 1)
				return simnet.RawFrame(f.Pid, f.Round, b)
			}
			if rd != a.round {
				return nil
			}
			if a.kind == hFrame {
				made, sure = true, true
				bad = badFrame(r, f.Raw)
				reached[int(f.To)] = true
				return bad
			}
			if !made {
				made = true
				x := own[[2]int{rd, int(f.To)}]
				if x == nil {
					x = own[[2]int{rd - 1, int(f.To)}]
				}
				bad = hostile(r, a.kind, f.Data, x, n2)
				if bad == nil {
					bad = []byte{}
				}
				sure = certain(a.kind, f.Data, bad)
			}
			reached[int(f.To)] = true
			atomic.AddUint64(&sent, uint64(len(bad)))
			return simnet.RawFrame(f.Pid, f.Round, bad)
		})
	}
	var m0, m1 runtime.MemStats
	if hot {
		runtime.ReadMemStats(&m0)
	}
	errs := p.run()
	if hot {
		runtime.ReadMemStats(&m1)
	}
	k.SetOnFrame(nil)
	if q := simnet.Panicked(errs); q != nil {
		c.Violate("panic", "%s\nparty %d sends %x (%d bytes) to %d\n%v", k.desc, from, head(bad), len(bad), victim, q)
		return 0, 0, false
	}
	if a.kind >= 0 && made {
		c.Count("hostile_messages", 1)
		if sure && (strict[a.op] || a.kind == hFrame && whole(a.op)) {
			c.Count("undecodable_for_sure", 1)
			for q := range reached {
				if errs[q] == nil {
					c.Violate("unreported", "%s\nparty %d sends %x (%d bytes); party %d ends without an error", k.desc, from, head(bad), len(bad), q)
				}
			}
		}
		if simnet.Errs(errs) > 0 {
			c.Count("reported", 1)
		} else {
			c.Count("went_through", 1)
		}
	} else if a.kind >= 0 {
		c.Count("not_reached", 1)
	}
	if p.after != nil {
		var ok []int
		for q, e := range errs {
			if e == nil {
				ok = append(ok, q)
			}
		}
		if len(ok) > 0 {
			if q := simnet.Panicked(p.after(ok)); q != nil {
				c.Violate("panic", "%s\nparty %d sent %x (%d bytes); later, in the next operation\n%v", k.desc, from, head(bad), len(bad), q)
			}
		}
	}
	return m1.TotalAlloc - m0.TotalAlloc, atomic.LoadUint64(&sent), true
}

// maxObject is the largest object that the code may allocate: no message of this monitor has more than 5 MB.
const maxObject = 40 << 20

// bigObjects looks at the allocation profile for single objects out of proportion.
func bigObjects(c *mon.Ctx) {
	runtime.GC()
	runtime.GC()
	n, _ := runtime.MemProfile(nil, true)
	recs := make([]runtime.MemProfileRecord, n+1000)
	n, ok := runtime.MemProfile(recs, true)
	if !ok {
		c.Fatal("no allocation profile")
	}
	for _, rec := range recs[:n] {
		if rec.AllocObjects == 0 {
			continue
		}
		size := rec.AllocBytes / rec.AllocObjects
		fr := runtime.CallersFrames(rec.Stack())
		var names []string
		repo := false
		for {
			f, more := fr.Next()
			names = append(names, fmt.Sprintf("%s %s:%d", f.Function, f.File, f.Line))
			if strings.Contains(f.Function, mon.RepoPath) {
				repo = true
			}
			if !more {
				break
			}
		}
		if !repo {
			continue
		}
		c.Max("largest_object_bytes", size)
		c.Count("allocation_sites_seen", 1)
		if size > maxObject {
			c.Violate("memory", "an object of %d bytes was allocated, although no message had more than 5 MB\n%s", size, strings.Join(names, "\n"))
		}
	}
}

func runC19(c *mon.Ctx) {
	runtime.MemProfileRate = 1 << 20
	paillierKeys(4, 1024)
	// sequentially, with the memory counted
	base := map[string]uint64{}
	seq := c.Rng("sequential")
	for _, o := range opRounds {
		if o.op == "Presign" || o.op == "Init" || o.op == "Sign" {
			continue
		}
		a := attack{op: o.op, n: 2, t: 2, kind: -1}
		for i := 0; i < 2; i++ {
			b, _, ok := attackRun(c, seq, a, true)
			if !ok {
				return
			}
			if b > base[o.op] {
				base[o.op] = b
			}
		}
		for rd := 0; rd < o.rounds; rd++ {
			for _, kind := range []int{hLen32, hLen32, hLen32, hLenBE, hLen64, hLenFields, hOnes, hHugeInt, hRepeat, hNoiseLong} {
				a.round, a.kind, a.all = rd, kind, true
				b, sent, ok := attackRun(c, seq, a, true)
				if !ok {
					return
				}
				c.Eval("seq/%v", a)
				a.rep++
				limit := 3*base[o.op] + 24<<20 + 64*sent
				c.Max("max_allocated_by_attacked_operation", int64(b))
				if b > limit {
					c.Violate("memory", "%v\n%d bytes are allocated for %d hostile bytes; the honest run takes %d", a, b, sent, base[o.op])
				}
			}
		}
	}
	for op, b := range base {
		c.Max("honest_bytes_"+op, int64(b))
	}
	hostileFramesSequential(c)
	// many at once
	var jobs []attack
	for _, o := range opRounds {
		for _, n := range []int{3, 2, 4} {
			for rd := 0; rd < o.rounds; rd++ {
				for kind := 0; kind < hKinds; kind++ {
					reps := c.Pick(1, 10)
					rng := c.Rng("reps", n, rd, kind, o.rounds)
					if c.Quick && (n != 3 && rng.Intn(3) > 0 || o.op == "Presign" && rng.Intn(8) > 0 || o.op == "Init" && rng.Intn(2) > 0) {
						continue
					}
					if kind == hCipher && !strings.HasSuffix(o.op, "Mult") {
						continue
					}
					if kind == hCipher {
						reps *= 8
					}
					for rep := 0; rep < reps; rep++ {
						jobs = append(jobs, attack{o.op, n, 1 + rng.Intn(n), rd, kind, rng.Intn(2) == 0, rep, 0})
					}
				}
			}
		}
	}
	// the same party goes on being hostile in the next round
	first := []int{hZeros, hEmpty, hLenZero, hPrefix, hNoise, hScalar, hFlip, hNeutral, hLenOff, hTiny, hOnes, hExtend}
	for _, o := range opRounds {
		for rd := 0; rd+1 < o.rounds; rd++ {
			rng := c.Rng("two", o.rounds, rd)
			for f, kind := range first {
				for rep := 0; rep < c.Pick(4, 24); rep++ {
					if c.Quick && o.rounds > 6 && rng.Intn(8) > 0 {
						continue
					}
					next := hScalar
					if rep%2 == 0 {
						next = 1 + rng.Intn(hFrame-1)
					}
					if next == hCipher && !strings.HasSuffix(o.op, "Mult") {
						next = hFlip
					}
					n := 2 + rng.Intn(2)
					jobs = append(jobs, attack{o.op, n, 1 + rng.Intn(n), rd, kind, rng.Intn(4) > 0, f*100 + rep, next})
				}
			}
		}
	}
	// an announcement of nothing, and then numbers that fail in each of the proofs
	for i := 0; i < c.Pick(32, 200); i++ {
		rng := c.Rng("nothing", i)
		jobs = append(jobs, attack{"Reshare", 2, 1 + rng.Intn(2), 1, []int{hZeros, hZeros, hLenFields, hHeader}[i%4], true, 10000 + i, hScalar})
	}
	c.Parallel(len(jobs), 12, func(i int) {
		r := c.Rng("attack", i)
		attackRun(c, r, jobs[i], false)
		c.Eval("%v", jobs[i])
		if i%(len(jobs)/6+1) == 0 {
			c.Sample("%v", jobs[i])
		}
	})
	c.Parallel(c.Pick(16, 160), 8, func(i int) { degenerate(c, c.Rng("degenerate", i), i) })
	c.Parallel(c.Pick(160, 1600), 8, func(i int) { hostileFrames(c, c.Rng("frames", i), i, false) })
	c.Parallel(c.Pick(160, 1600), 8, func(i int) { hostileSetup(c, c.Rng("setup", i), i) })
	bigObjects(c)
}

// degenerate lets the last party, which sees everything first, make the keys and commitments degenerate.
func degenerate(c *mon.Ctx, r *rand.Rand, id int) {
	n := 2 + id%3
	k := newKit(c, r, simnet.Opts{N: n}, fmt.Sprintf("degenerate %d: %d parties; one chooses its public shares so that the common key is neutral", id, n))
	if k == nil {
		return
	}
	defer c.Begin("%s", k.desc)()
	defer k.Down()
	bad := r.Intn(n)
	// the commitment round shows the points in clear: answer with minus their sum, consistently
	var mx sync.Mutex
	cond := sync.NewCond(&mx)
	pts := map[int]ref.Pt{}
	single := id%4 == 3 // only the attacker's own share is neutral
	k.rewrite(func(rd int, f *simnet.Frame) []byte {
		mx.Lock()
		defer mx.Unlock()
		gr := rd / 2 // key generation number
		if rd%2 == 0 && int(f.From) != bad && len(f.Data) > 8 {
			if p, _, err := ref.DecodePt(f.Data[8:]); err == nil {
				pts[gr*100+int(f.From)] = p
				cond.Broadcast()
			}
		}
		if int(f.From) != bad {
			return nil
		}
		q := ref.Inf
		if !single {
			for p := 0; p < n; p++ {
				if p == bad {
					continue
				}
				for {
					if x, ok := pts[gr*100+p]; ok {
						q = q.Add(x)
						break
					}
					cond.Wait()
				}
			}
			q = q.Neg()
		}
		e := q.Encode()
		if rd%2 == 1 {
			return e
		}
		h := make([]byte, 8)
		binary.LittleEndian.PutUint32(h, uint32(len(e)))
		return append(h, e...)
	})
	protos := make([]*tecdsa.Protocol, n)
	errs := k.AllCut(func(p int) (err error) {
		protos[p], err = tecdsa.Init(uint16(p), uint16(n), k.srv[p])
		return err
	})
	k.SetOnFrame(nil)
	c.Eval("degenerate/%d", id)
	if !k.noPanic("Init", errs) {
		return
	}
	if simnet.Errs(errs) > 0 {
		c.Count("degenerate_refused", 1)
		return
	}
	c.Count("degenerate_accepted", 1)
	errs = k.AllCut(func(p int) error {
		if err := protos[p].Presign(uint16(1 + id%n)); err != nil {
			return err
		}
		_, err := protos[p].Sign(bi(5))
		return err
	})
	k.noPanic("Presign and Sign", errs)
}

var hugeFrames = []uint64{1 << 27, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 36, 1 << 40, 1 << 47, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 100, 1<<64 - 1, 1<<64 - 10}

// hostileStream makes the bytes sent in place of a frame.
func hostileStream(r *rand.Rand, f *simnet.Frame) ([]byte, string) {
	noise := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	h := make([]byte, 8)
	le := binary.LittleEndian
	switch r.Intn(9) {
	case 0, 1, 2:
		l := hugeFrames[r.Intn(len(hugeFrames))]
		le.PutUint64(h, l)
		return append(h, append(append([]byte{}, f.Raw[8:]...), noise(r.Intn(3000))...)...), fmt.Sprintf("length %d", l)
	case 3:
		return noise(r.Intn(400)), "noise"
	case 4:
		le.PutUint64(h, uint64(r.Intn(20)))
		return append(h, noise(r.Intn(30))...), "a short length"
	case 5:
		return f.Raw[:r.Intn(len(f.Raw))], "a part of the frame"
	case 6:
		return bytes.Repeat([]byte{0}, r.Intn(5000)), "zeroes"
	case 7:
		le.PutUint64(h, uint64(4<<20))
		return append(h, noise(1<<20)...), "a quarter of 4 MB"
	default:
		b := append([]byte{}, f.Raw...)
		b[8+r.Intn(10)] ^= 1 << uint(r.Intn(8))
		return b, "another sender or round"
	}
}

func hostileFramesSequential(c *mon.Ctx) {
	for i := 0; i < c.Pick(60, 300); i++ {
		if c.Violated() {
			return
		}
		hostileFrames(c, c.Rng("framesSeq", i), i, true)
	}
}

// hostileFrames lets one party send a hostile stream in place of its frame of a round and close the connection.
func hostileFrames(c *mon.Ctx, r *rand.Rand, id int, hot bool) {
	n := 2 + id%4
	o := simnet.Opts{N: n, Seed: r.Int63()}
	if r.Intn(2) == 0 {
		o.MaxRead = 1 + r.Intn(4000)
	}
	desc := fmt.Sprintf("hostile frames %d (memory counted: %v): %d parties", id, hot, n)
	defer c.Begin("%s", desc)()
	s, err := simnet.NewSession(o)
	if err != nil {
		c.Violate("start", "%s\n%v", desc, err)
		return
	}
	defer s.Down()
	bad := r.Intn(n)
	good := r.Intn(3)
	all := r.Intn(2) == 0
	victim := (bad + 1 + r.Intn(n-1)) % n
	var mx sync.Mutex
	var sent int64
	hit := false
	what := ""
	rd := 0
	s.SetOnFrame(func(f *simnet.Frame) simnet.Verdict {
		mx.Lock()
		defer mx.Unlock()
		if rd != good || int(f.From) != bad || !all && int(f.To) != victim {
			return simnet.Verdict{}
		}
		b, w := hostileStream(r, f)
		what = w
		hit = true
		sent += int64(len(b))
		return simnet.Verdict{Replace: [][]byte{b}, Close: true}
	})
	dead := false
	for ; rd < good+3; rd++ {
		var m0, m1 runtime.MemStats
		if hot {
			runtime.ReadMemStats(&m0)
		}
		var pids []int
		for p := 0; p < n; p++ {
			if p != bad || !dead {
				pids = append(pids, p)
			}
		}
		got := make([]map[int]string, n)
		errs := s.Some(pids, func(p int) error {
			got[p] = map[int]string{}
			return s.Srv[p].Round([][]byte{[]byte(fmt.Sprintf("%d/%d", p, rd))}, func(q uint16, d []byte) error { got[p][int(q)] = string(d); return nil })
		})
		if hot {
			runtime.ReadMemStats(&m1)
			used := int64(m1.TotalAlloc - m0.TotalAlloc)
			c.Max("max_allocated_by_round", used)
			if used > 16<<20+64*atomic.LoadInt64(&sent) {
				c.Violate("memory", "%s\nround %d: %d bytes are allocated for a hostile stream of %d (%s)", desc, rd, used, sent, what)
				return
			}
		}
		if p := simnet.Panicked(errs); p != nil {
			c.Violate("panic", "%s\nround %d, stream %s: %v", desc, rd, what, p)
			return
		}
		c.Eval("frames/%v/%d/%d", hot, id, rd)
		for _, p := range pids {
			if p == bad {
				continue
			}
			hurt := rd >= good && (all || p == victim) || dead
			if hurt && errs[p] == nil {
				c.Violate("unreported", "%s\nround %d: party %d reports no error although party %d sent %s", desc, rd, p, bad, what)
			}
			if !hurt && errs[p] != nil {
				c.Violate("spread", "%s\nround %d: party %d reports %v, but got no hostile bytes (party %d sent %s to %d)", desc, rd, p, errs[p], bad, what, victim)
			}
			for _, q := range pids {
				if q != p && q != bad && got[p][q] != fmt.Sprintf("%d/%d", q, rd) {
					c.Violate("spread", "%s\nround %d: party %d got %q from party %d, while party %d sent %s", desc, rd, p, got[p][q], q, bad, what)
				}
			}
		}
		if c.Violated() {
			return
		}
		if rd >= good && !dead {
			dead = true
			s.Cut(uint16(bad))
		}
	}
	if hit {
		c.Count("hostile_streams", 1)
	}
}

// hostileSetup connects to the parties with hostile handshakes before and while they connect to each other.
func hostileSetup(c *mon.Ctx, r *rand.Rand, id int) {
	n := 2 + id%3
	desc := fmt.Sprintf("hostile set-up %d: %d parties", id, n)
	defer c.Begin("%s", desc)()
	type visit struct {
		to    int
		hs    []byte
		steps int // how the bytes are split
		open  bool
		first bool
	}
	var vs []visit
	imp := map[[2]int]bool{} // the attacker pretends to be the second to the first
	impersonate := id%4 == 3
	for k := 1 + r.Intn(3*n); k > 0; k-- {
		v := visit{to: r.Intn(n), steps: 1 + r.Intn(3), open: r.Intn(2) == 0, first: r.Intn(3) > 0}
		le := binary.LittleEndian
		b := make([]byte, 2)
		switch r.Intn(6) {
		case 0:
			v.hs, v.open = b[:r.Intn(2)], false
		case 1:
			le.PutUint16(b, uint16(n+r.Intn(3)))
			v.hs = b
		case 2:
			le.PutUint16(b, []uint16{65535, 32768, 256, 32767}[r.Intn(4)])
			v.hs = b
		case 3:
			le.PutUint16(b, uint16(v.to))
			v.hs = b
		case 4:
			le.PutUint16(b, uint16(n+r.Intn(60000-n)))
			v.hs = append(b, make([]byte, r.Intn(100))...)
			r.Read(v.hs[2:])
		case 5:
			if impersonate {
				q := (v.to + 1 + r.Intn(n-1)) % n
				le.PutUint16(b, uint16(q))
				v.hs, v.open = append(b, 1, 2, 3), false
				imp[[2]int{v.to, q}] = true
			} else {
				v.hs, v.open = nil, false
			}
		}
		vs = append(vs, v)
	}
	attack := func(conn interface {
		Write([]byte) (int, error)
		Flush() error
		Close() error
	}, v visit) {
		b := v.hs
		for i := 0; i < v.steps && len(b) > 0; i++ {
			k := len(b)
			if i < v.steps-1 {
				k = (len(b) + 1) / 2
			}
			conn.Write(b[:k])
			conn.Flush()
			b = b[k:]
		}
		if !v.open {
			conn.Close()
		}
	}
	var errs []error
	var got []map[int]string
	lead := 60 * time.Millisecond
	for try := 0; ; try++ {
		net := simnet.New(simnet.Opts{N: n + 1, Seed: r.Int63(), Raw: true})
		srv := make([]rsync.Server, n)
		start := time.Now().Add(lead)
		for p := range srv {
			srv[p] = rsync.NewServer(uint16(p), uint16(n), start, simnet.RoundDuration, net.Server(uint16(p)))
		}
		bad := net.Server(uint16(n))
		for _, v := range vs {
			if v.first {
				if conn, err := bad.Dial(uint16(v.to)); err == nil {
					attack(conn, v)
				}
			}
		}
		for p := range srv {
			srv[p].Start()
		}
		for _, v := range vs {
			if !v.first {
				v := v
				go func() {
					if conn, err := bad.Dial(uint16(v.to)); err == nil {
						attack(conn, v)
					}
				}()
			}
		}
		errs = make([]error, n)
		got = make([]map[int]string, n)
		var wg sync.WaitGroup
		for p := range srv {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				got[p] = map[int]string{}
				errs[p] = func() (err error) {
					defer func() {
						if x := recover(); x != nil {
							err = &simnet.PanicError{V: x}
						}
					}()
					return srv[p].Round([][]byte{{byte(p)}}, func(q uint16, d []byte) error { got[p][int(q)] = string(d); return nil })
				}()
				if errs[p] != nil {
					net.Cut(uint16(p))
				}
			}(p)
		}
		wg.Wait()
		net.Down()
		mon.Tick()
		late := false
		for _, e := range errs {
			if e != nil && strings.Contains(e.Error(), "start time") {
				late = true
			}
		}
		if !late || try == 8 {
			break
		}
		lead *= 2
	}
	c.Eval("setup/%d", id)
	c.Count("hostile_connections", int64(len(vs)))
	if p := simnet.Panicked(errs); p != nil {
		c.Violate("panic", "%s\nconnections %v\n%v", desc, vs, p)
		return
	}
	if len(imp) > 0 {
		c.Count("impersonations", 1)
		return
	}
	for p, e := range errs {
		if e != nil {
			c.Violate("setup", "%s\nconnections %v\nthe first round fails at party %d: %v", desc, vs, p, e)
			return
		}
		for q := range errs {
			if q != p && got[p][q] != string([]byte{byte(q)}) {
				c.Violate("setup", "%s\nconnections %v\nparty %d got %q from %d", desc, vs, p, got[p][q], q)
			}
		}
	}
}
