package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"aaa.vmon/coremon"
	"aaa.vmon/mon"
	"aaa.vmon/ref"
	"aaa.vmon/rnd"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// C08 watches what is drawn.
var C08 = &mon.Monitor{
	Level: "fault_enumeration",
	Rule: coremon.C08Rule + "; protocols: the same of every share, commitment randomness, polynomial coefficient, refreshing value and blinding value " +
		"that shows on the wire of key generation, generation, resharing, multiplication and Diffie-Hellman checks, across parties and runs; and every read of the source by a party " +
		"in every operation fails in turn, upon which that party reports an error, has no result, and publishes nothing made of it; distinct by proof bytes, session, operation, party and read",
	MinEval: 3000,
	Assume:  []string{"values are compared through their multiples of the generator, which the monitor computes from the wire as it knows the discrete logarithm of the commitment key"},
	Run: func(c *mon.Ctx) {
		coremon.RunC08(c)
		if !c.Violated() {
			runC08(c)
		}
	},
}

func runC08(c *mon.Ctx) {
	paillierKeys(11, 1024)
	book := coremon.NewBook(c)
	c.Parallel(c.Pick(56, 600), 8, func(i int) {
		r := c.Rng("session", i)
		o := simnet.Opts{N: size(c, i, 3, 2, 4, 5)}
		if o.N == 11 {
			o.N = 4
		}
		k := newKit(c, r, o, fmt.Sprintf("session %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		k.fresh(r, book, i)
	})
	book.Judge()
	if c.Violated() {
		return
	}
	c.Parallel(c.Pick(6, 24), 8, func(i int) {
		r := c.Rng("influence", i)
		o := simnet.Opts{N: 2}
		k := newKit(c, r, o, fmt.Sprintf("influence %d: %s", i, describe(o)))
		if k == nil {
			return
		}
		defer c.Begin("%s", k.desc)()
		defer k.Down()
		k.influence(r, i)
	})
	if c.Violated() {
		return
	}
	failOps(c)
}

// draws are named points made of single draws.
type draws map[string]ref.Pt

// resharing takes the draws of party p out of the frames of a resharing with threshold t. old is its
// commitment before.
func (k *kit) drawsReshare(fr [][][]*simnet.Frame, p, t int, olds []ref.Comm) (draws, error) {
	d := draws{}
	bad := fmt.Errorf("strange messages")
	if len(fr) < 6 {
		return nil, bad
	}
	know := func(name string, b []byte) ([]byte, error) {
		pr, rest, err := ref.DecodeProof(b)
		if err == nil {
			d[name+" know_sigma"], d[name+" know_rho"] = pr.XY.A, pr.XY.Open(k.dh)
		}
		return rest, err
	}
	refr := func(name string, b []byte) ([]byte, error) {
		pr, rest, err := ref.DecodeProof(b)
		if err == nil {
			d[name+" refresh_sigma"] = pr.XY.A
		}
		return rest, err
	}
	if _, err := know("secret", sentBy(fr[0][p])); err != nil {
		return nil, bad
	}
	// step 5
	var err error
	coefs := make([][]ref.Comm, k.N)
	for q := 0; q < k.N; q++ {
		b := sentBy(fr[2][q])
		for i := 0; i < t; i++ {
			var cm ref.Comm
			if cm, b, err = ref.DecodeComm(b); err != nil {
				return nil, bad
			}
			coefs[q] = append(coefs[q], cm)
		}
		if q != p {
			continue
		}
		for i, cm := range coefs[p] {
			if i == 0 {
				d["coef 0 randomness"] = cm.A.Sub(olds[p].A)
			} else {
				where := "inner"
				if i == t-1 {
					where = "top"
				}
				d[fmt.Sprintf("%s coef %d randomness", where, i)] = cm.A
				d[fmt.Sprintf("%s coef %d", where, i)] = cm.Open(k.dh)
			}
			if b, err = know(fmt.Sprintf("coef %d", i), b); err != nil {
				return nil, bad
			}
		}
		if _, err = refr("coef 0", b); err != nil {
			return nil, bad
		}
	}
	// step 7
	sums := make([]ref.Comm, k.N) // commitment of each party after step 9
	for q := range sums {
		sums[q] = ref.Comm{A: ref.Inf, B: ref.Inf}
	}
	for q := 0; q < k.N; q++ {
		b := sentBy(fr[3][q])
		for l := 0; l < k.N; l++ {
			var cm ref.Comm
			if cm, b, err = ref.DecodeComm(b); err != nil {
				return nil, bad
			}
			sums[l] = sums[l].Add(cm)
			if q != p {
				continue
			}
			ev := ref.Inf
			x := bi(1)
			for i := 0; i < t; i++ {
				ev = ev.Add(coefs[p][i].A.Mul(x))
				x = mul(x, bi(int64(l+1)))
			}
			d[fmt.Sprintf("evaluation %d refresh", l)] = cm.A.Sub(ev)
		}
		for l := 0; l < k.N && q == p; l++ {
			if b, err = refr(fmt.Sprintf("evaluation %d", l), b); err != nil {
				return nil, bad
			}
		}
	}
	// step 10
	b, err := refr("share", sentBy(fr[5][p]))
	if err != nil {
		return nil, bad
	}
	cm, _, err := ref.DecodeComm(b)
	if err != nil {
		return nil, bad
	}
	d["share refresh"] = cm.A.Sub(sums[p].A)
	return d, nil
}

func (k *kit) drawsGen(fr [][][]*simnet.Frame, p int) (draws, error) {
	if len(fr) < 1 {
		return nil, fmt.Errorf("no frames")
	}
	cm, _, err := ref.DecodeComm(sentBy(fr[0][p]))
	if err != nil {
		return nil, err
	}
	return draws{"share": cm.Open(k.dh), "randomness": cm.A}, nil
}

func (k *kit) drawsGER(fr [][][]*simnet.Frame, p int) (draws, error) {
	if len(fr) < 2 {
		return nil, fmt.Errorf("no frames")
	}
	q, _, err := ref.DecodePt(sentBy(fr[1][p]))
	if err != nil {
		return nil, err
	}
	return draws{"key share": q}, nil
}

// drawsDH takes alpha and beta out of a check of (a*G, b*G) for the key x*G, with b != a*x.
func (k *kit) drawsDH(fr [][][]*simnet.Frame, p int, a, b, x *big.Int) (draws, error) {
	if len(fr) < 2 {
		return nil, fmt.Errorf("no frames")
	}
	v, rest, err := ref.DecodePt(sentBy(fr[1][p]))
	if err != nil {
		return nil, err
	}
	u, _, err := ref.DecodePt(rest)
	if err != nil {
		return nil, err
	}
	// u = alpha*a + beta, v = alpha*b + beta*x
	den := modN(sub(mul(a, x), b))
	alpha := u.Mul(x).Sub(v).Mul(new(big.Int).ModInverse(den, ref.N))
	return draws{"alpha": alpha, "beta": u.Sub(alpha.Mul(a))}, nil
}

// drawsMult takes the commitment randomness out of a multiplication by shares as of commitments bs.
func (k *kit) drawsMult(fr [][][]*simnet.Frame, p int, share *big.Int, bs []ref.Comm) (draws, error) {
	if len(fr) < 4 {
		return nil, fmt.Errorf("no frames")
	}
	cm, _, err := ref.DecodeComm(sentBy(fr[2][p]))
	if err != nil {
		return nil, err
	}
	ab, _, err := ref.DecodeComm(sentBy(fr[3][p]))
	if err != nil {
		return nil, err
	}
	s := ref.Inf
	for _, b := range bs {
		s = s.Add(b.A)
	}
	return draws{"product randomness": cm.A, "second randomness": ab.A.Sub(s.Mul(share))}, nil
}

// note books the draws of a party.
func (k *kit) note(book *coremon.Book, r *rand.Rand, what string, p int, d draws, err error) bool {
	if err != nil {
		k.c.Violate("frames", "%s\n%s: the messages of party %d cannot be understood: %v", k.desc, what, p, err)
		return false
	}
	log := k.Rnd[p].Log()
	for name, q := range d {
		desc := fmt.Sprintf("%s, %s, party %d, %s", k.desc, what, p, name)
		if !book.Point(kindOf(what, name), desc, q) {
			return false
		}
		// the scalar itself, where it is just what was read
		if r.Intn(6) == 0 || strings.Contains(name, "inner") && r.Intn(2) == 0 {
			if x := dlogAny(q, log); x != nil {
				book.Value(kindOf(what, name), desc, x)
			} else {
				k.c.Count("not_found_among_reads", 1)
			}
		}
	}
	k.c.Eval("%s/%s/%d", k.desc, what, p)
	return true
}

func kindOf(what, name string) string {
	out := []byte{}
	for _, ch := range []byte(what + "_" + name) {
		if ch == ' ' {
			ch = '_'
		}
		if ch < '0' || ch > '9' {
			out = append(out, ch)
		}
	}
	return string(out)
}

// dlogAny also tries reads of which the top bits were cleared.
func dlogAny(q ref.Pt, log [][]byte) *big.Int {
	if x := dlog(q, log); x != nil {
		return x
	}
	for _, b := range log {
		if len(b) < 8 || len(b) > 64 {
			continue
		}
		x := new(big.Int).SetBytes(b)
		for _, w := range []uint{255, 254, 253, 252, 248, 240, 224, 192, 160, 128} {
			y := new(big.Int).And(x, sub(new(big.Int).Lsh(bi(1), w), bi(1)))
			if ref.Base(y).Eq(q) {
				return y
			}
		}
	}
	return nil
}

func (k *kit) fresh(r *rand.Rand, book *coremon.Book, id int) {
	c := k.c
	frames := func(m int) [][][]*simnet.Frame { return k.rounds(k.FramesSince(m)) }
	// the same run twice must not draw the same
	k.startLog()
	m := k.Mark()
	keys, errs := k.ger("x")
	if !k.ok("GenExpReveal", errs) {
		return
	}
	x := bi(0)
	for p := 0; p < k.N; p++ {
		d, err := k.drawsGER(frames(m), p)
		if !k.note(book, r, "key generation", p, d, err) {
			return
		}
		s := dlogAny(d["key share"], k.Rnd[p].Log())
		if x != nil && s != nil {
			x = modN(add(x, s))
		} else {
			x = nil
		}
	}
	if x != nil {
		for rep := 0; rep < 2; rep++ {
			k.startLog()
			m = k.Mark()
			a, b := coremon.RandScalar(r), coremon.RandScalar(r)
			errs = k.All(func(p int) error {
				return arith.CheckDH(coremon.FromRef(k.g, ref.Base(a)), coremon.FromRef(k.g, ref.Base(b)), k.g, keys[p])
			})
			if !k.noPanic("CheckDH", errs) {
				return
			}
			for p := 0; p < k.N; p++ {
				d, err := k.drawsDH(frames(m), p, a, b, x)
				if !k.note(book, r, "DH check", p, d, err) {
					return
				}
			}
		}
	}
	var deals []*deal
	labels := []string{"x", "k", "rho", "eta", "tau", "a secret", ""}
	for rep := 0; rep < 3; rep++ {
		m = k.Mark()
		// mostly the same label again
		label := labels[(id+rep/2)%len(labels)]
		dl := k.deal(label)
		if dl == nil {
			return
		}
		for p := 0; p < k.N; p++ {
			d, err := k.drawsGen(frames(m), p)
			if !k.note(book, r, "generation", p, d, err) {
				return
			}
		}
		deals = append(deals, dl)
	}
	for rep := 0; rep < 3; rep++ {
		t := 1 + r.Intn(k.N)
		k.startLog()
		m = k.Mark()
		_, errs := k.reshare(deals[0].ads, t)
		if !k.ok("Reshare", errs) {
			return
		}
		for p := 0; p < k.N; p++ {
			d, err := k.drawsReshare(frames(m), p, t, deals[0].comms)
			if !k.note(book, r, "resharing", p, d, err) {
				return
			}
		}
	}
	if k.N <= 4 && deals[0].val != nil && deals[1].val != nil {
		privs, pubs := paillierKeys(k.N, 1024)
		for rep := 0; rep < 2; rep++ {
			k.startLog()
			m = k.Mark()
			if _, errs := k.mult(deals[0].ads, deals[1].ads, "z", privs, pubs); !k.ok("Mult", errs) {
				return
			}
			fr := frames(m)
			for p := 0; p < k.N; p++ {
				d, err := k.drawsMult(fr, p, deals[0].shares[p], deals[1].comms)
				if !k.note(book, r, "multiplication", p, d, err) {
					return
				}
			}
		}
	}
	if id%3 == 0 && k.N < 8 && !k.freshSigning(r, book) {
		return
	}
	if id < 3 {
		c.Sample("%s: key generation, checks, generation, resharing and multiplication, each repeated", k.desc)
	}
}

// freshSigning books what the signing protocol draws.
func (k *kit) freshSigning(r *rand.Rand, book *coremon.Book) bool {
	m := k.Mark()
	w := k.signers(r)
	if w == nil {
		return false
	}
	fr := k.rounds(k.FramesSince(m))
	for i, what := range []string{"signing key", "commitment key"} {
		for p := 0; p < k.N; p++ {
			d, err := k.drawsGER(fr[2*i:], p)
			if !k.note(book, r, what, p, d, err) {
				return false
			}
		}
	}
	k2 := *k
	k2.dh = w.h
	desc := k.desc
	for rep := 0; rep < 2; rep++ {
		t := 1 + r.Intn(k.N)
		k.startLog()
		m = k.Mark()
		if !k.ok("Presign", w.presignErrs(k.alive(), t)) {
			return false
		}
		pr := w.read(&presigned{mark: m, t: t})
		if pr == nil {
			return false
		}
		for i := range pr.gen {
			k2.desc = fmt.Sprintf("%s, for secret %d", desc, i)
			olds := make([]ref.Comm, k.N)
			for p := range olds {
				olds[p], _, _ = ref.DecodeComm(sentBy(pr.gen[i][0][p]))
			}
			for p := range olds {
				d, err := k2.drawsGen(pr.gen[i], p)
				if !k2.note(book, r, "presignature", p, d, err) {
					return false
				}
				d, err = k2.drawsReshare(pr.resh[i], p, t, olds)
				if !k2.note(book, r, "presignature resharing", p, d, err) {
					return false
				}
			}
		}
		k.c.Count("presignatures_booked", 1)
	}
	return true
}

// influence varies single bytes of what party 0 reads.
func (k *kit) influence(r *rand.Rand, id int) {
	c := k.c
	seeds := [2]int64{r.Int63(), r.Int63()}
	conv := func(d draws, err error) (map[string]string, bool) {
		if err != nil {
			c.Violate("frames", "%s\n%v", k.desc, err)
			return nil, false
		}
		out := map[string]string{}
		for n, q := range d {
			out[n] = string(q.Encode())
		}
		return out, true
	}
	run := func(what string, f func() (map[string]string, bool)) {
		coremon.Influence(c, fmt.Sprintf("%s %d", what, id), k.Rnd[0], seeds[0], func() { k.Rnd[1].Seed(seeds[1]) }, f)
		k.c.Count("influence_"+kindOf(what, ""), 1)
	}
	dl, dl2 := k.deal("x"), k.deal("y")
	if dl == nil || dl2 == nil {
		return
	}
	switch id % 3 {
	case 0:
		run("generation", func() (map[string]string, bool) {
			m := k.Mark()
			if _, errs := k.gen("x"); !k.ok("Gen", errs) {
				return nil, false
			}
			return conv(k.drawsGen(k.rounds(k.FramesSince(m)), 0))
		})
		run("key generation", func() (map[string]string, bool) {
			m := k.Mark()
			if _, errs := k.ger("x"); !k.ok("GenExpReveal", errs) {
				return nil, false
			}
			return conv(k.drawsGER(k.rounds(k.FramesSince(m)), 0))
		})
	case 1:
		run("resharing", func() (map[string]string, bool) {
			m := k.Mark()
			if _, errs := k.reshare(dl.ads, 2); !k.ok("Reshare", errs) {
				return nil, false
			}
			return conv(k.drawsReshare(k.rounds(k.FramesSince(m)), 0, 2, dl.comms))
		})
	case 2:
		k.startLog()
		m := k.Mark()
		keys, errs := k.ger("x")
		if !k.ok("GenExpReveal", errs) {
			return
		}
		x := bi(0)
		for p := 0; p < 2; p++ {
			q, _, _ := ref.DecodePt(sentBy(k.rounds(k.FramesSince(m))[1][p]))
			s := dlog(q, k.Rnd[p].Log())
			if s == nil {
				x = nil
				break
			}
			x = modN(add(x, s))
		}
		if x != nil {
			a, b := coremon.RandScalar(r), coremon.RandScalar(r)
			run("DH check", func() (map[string]string, bool) {
				m := k.Mark()
				errs := k.All(func(p int) error {
					return arith.CheckDH(coremon.FromRef(k.g, ref.Base(a)), coremon.FromRef(k.g, ref.Base(b)), k.g, keys[p])
				})
				if !k.noPanic("CheckDH", errs) {
					return nil, false
				}
				return conv(k.drawsDH(k.rounds(k.FramesSince(m)), 0, a, b, x))
			})
		}
		if dl.shares[0] != nil {
			privs, pubs := paillierKeys(2, 1024)
			run("multiplication", func() (map[string]string, bool) {
				m := k.Mark()
				if _, errs := k.mult(dl.ads, dl2.ads, "z", privs, pubs); !k.ok("Mult", errs) {
					return nil, false
				}
				return conv(k.drawsMult(k.rounds(k.FramesSince(m)), 0, dl.shares[0], dl2.comms))
			})
		}
	}
}

// op is an operation with a result.
type op struct {
	name string
	run  func(k *kit, p int) (got bool, err error)
}

// failOps lets each read of one party in each operation fail in turn.
func failOps(c *mon.Ctx) {
	privs, pubs := paillierKeys(3, 1024)
	type job struct {
		op      int
		n       int
		at      int64
		victim  int
		once    bool
		partial bool
		err     error
	}
	// state of a session that operations start from
	type state struct {
		k     *kit
		x, y  *deal
		keys  []*arith.DKey
		proto []*tecdsa.Protocol
	}
	const nOps = 8
	names := []string{"Gen", "GenExpReveal", "Reshare", "CheckDH", "PrivMult", "Mult", "Init", "Presign"}
	prepare := func(r *rand.Rand, o, n int, desc string) *state {
		k := newKit(c, r, simnet.Opts{N: n}, desc)
		if k == nil {
			return nil
		}
		st := &state{k: k}
		good := true
		switch o {
		case 2, 5:
			st.x, st.y = k.deal("x"), k.deal("y")
			good = st.x != nil && st.y != nil
		case 3:
			var errs []error
			st.keys, errs = k.ger("x")
			good = k.ok("GenExpReveal", errs)
		case 7:
			w := k.signers(r)
			if good = w != nil; good {
				st.proto = w.proto
			}
		}
		if !good {
			k.Down()
			return nil
		}
		return st
	}
	run := func(st *state, o int, r *rand.Rand) ([]bool, []error) {
		k := st.k
		got := make([]bool, k.N)
		t := k.N
		a, b := coremon.RandScalar(r), coremon.RandScalar(r)
		errs := k.AllCut(func(p int) (err error) {
			switch o {
			case 0:
				s, err := arith.Gen("x", k.srv[p], k.egf[p], uint16(p), uint16(k.N))
				got[p] = s != nil
				return err
			case 1:
				s, err := arith.GenExpReveal(uint16(p), "x", k.srv[p], uint16(k.N), k.g)
				got[p] = s != nil
				return err
			case 2:
				s, err := st.x.ads[p].Reshare(uint16(t))
				got[p] = s != nil
				return err
			case 3:
				pk := st.keys[p].PublicKey()
				return arith.CheckDH(k.g.ScalarBaseMult(a), k.g.ScalarMult(pk, a), k.g, st.keys[p])
			case 4:
				s, err := arith.PrivMult(a, b, p, k.N, k.srv[p], privs[p], pubs[p], pubs[:k.N])
				got[p] = s != nil
				return err
			case 5:
				s, err := arith.Mult(st.x.ads[p], st.y.ads[p], "z", privs[p], pubs[p], pubs[:k.N])
				got[p] = s != nil
				return err
			case 6:
				s, err := tecdsa.Init(uint16(p), uint16(k.N), k.srv[p])
				got[p] = s != nil
				return err
			default:
				return st.proto[p].Presign(uint16(t))
			}
		})
		return got, errs
	}
	// how many reads are there?
	var jobs []job
	for o := 0; o < nOps; o++ {
		for _, n := range []int{2, 3} {
			r := c.Rng("count", o, n)
			st := prepare(r, o, n, fmt.Sprintf("%s by %d parties", names[o], n))
			if st == nil {
				return
			}
			from := st.k.Rnd[0].Reads()
			_, errs := run(st, o, r)
			reads := st.k.Rnd[0].Reads() - from
			st.k.Down()
			if !st.k.ok(names[o], errs) {
				return
			}
			c.Max("reads_"+names[o], reads)
			step := int64(1)
			if c.Quick && reads > 24 {
				step = reads/24 + 1
			}
			for at := int64(0); at < reads; at++ {
				if at%step != int64(r.Intn(int(step))) {
					continue
				}
				for m := 0; m < c.Pick(1, 4); m++ {
					jobs = append(jobs, job{o, n, at, r.Intn(n), r.Intn(2) == 0, r.Intn(2) == 0, []error{rnd.ErrInjected, fmt.Errorf("EOF")}[r.Intn(2)]})
				}
			}
		}
	}
	c.Parallel(len(jobs), 8, func(i int) {
		j := jobs[i]
		r := c.Rng("fail", i)
		desc := fmt.Sprintf("%s by %d parties, the randomness source of party %d fails at read %d (once %v, after half of the bytes %v)", names[j.op], j.n, j.victim, j.at, j.once, j.partial)
		st := prepare(r, j.op, j.n, desc)
		if st == nil {
			return
		}
		defer c.Begin("%s", desc)()
		defer st.k.Down()
		src := st.k.Rnd[j.victim]
		src.ArmWith(j.at, j.once, j.partial, j.err)
		got, errs := run(st, j.op, r)
		failed := src.Disarm()
		if !st.k.noPanic(names[j.op], errs) {
			return
		}
		c.Eval("%s/%d/%d/%d", names[j.op], j.n, j.at, i)
		if failed == 0 {
			c.Count("failure_not_reached", 1)
			return
		}
		c.Count("failing_reads_in_protocols", 1)
		if errs[j.victim] == nil {
			c.Violate("failclosed", "%s\nbut it reports no error", desc)
		} else if got[j.victim] {
			c.Violate("failclosed", "%s\nbut it has a result", desc)
		}
		if i%(len(jobs)/4+1) == 0 {
			c.Sample("%s: %v", desc, errs[j.victim])
		}
	})
}
