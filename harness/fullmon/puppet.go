package fullmon

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"

	"aaa.vmon/coremon"
	"aaa.vmon/ref"
)

// puppet is a party played by the monitor with arithmetic of its own. It follows the protocol, or
// deviates where dev says so.
type puppet struct {
	k     *kit
	pid   int
	r     *rand.Rand
	dev   deviation
	share *big.Int   // own share
	rnd   *big.Int   // randomness of the own commitment
	comms []ref.Comm // commitments of all
	bad   []int      // all the puppets
	done  bool       // the deviation took place
}

// deviation is one way of not following the protocol.
type deviation struct {
	kind   int
	forge  int // how false proofs are made
	at     int // coefficient or party concerned
	delta  *big.Int
	null   bool            // false commitments are neutral
	scalar func() *big.Int // source of odd scalars, nil for random ones
}

const (
	dNone = iota
	// what every honest party has to notice
	dSecretUnknown   // the commitment of the generation is nobody's
	dSecretProof     // the first proof is not valid
	dConstant        // the constant coefficient is not the share
	dConstantRerand  // the constant coefficient commits to the share in another base
	dCoefProof       // the proof of a coefficient is not valid
	dCoefUnknown     // a coefficient nobody knows
	dConstantProof   // only the refresh proof of the constant coefficient is not valid
	dEarlierData     // other coefficients announced
	dEarlierProofs   // other proofs announced
	dEvalComm        // the commitment to one evaluation commits to something else, and so does what is sent
	dEvalCommOwn     // the same for the own evaluation
	dEvalCommPair    // two evaluations are shifted in opposite directions
	dEvalProof       // a proof of an evaluation is not valid
	dEvalHigher      // evaluations of a polynomial of a higher degree
	dEvalOther       // evaluations of another polynomial with the same constant
	dEvalSent        // the evaluation sent is not the committed one
	dEvalSentRandom  // its randomness is not
	dEvalSentBoth    // both are wrong
	dEvalSentSwapped // both exchanged
	dShareComm       // the final commitment is to another share
	dShareProof      // the last proof is not valid
	dShareRandom     // the final commitment is unrelated
	dCheats
	// what honest parties may refuse or not
	dUnreduced = dCheats + iota
	dLongEval
	dTrailing
)

var devNames = map[int]string{dNone: "follows the protocol", dSecretUnknown: "commits to a share it does not know", dSecretProof: "does not prove its share", dConstant: "shares something other than its share",
	dConstantRerand: "takes a multiple of its commitment as the constant coefficient", dCoefProof: "does not prove a coefficient", dCoefUnknown: "uses a coefficient it does not know", dConstantProof: "does not prove that it shares its share",
	dEarlierData: "announces other coefficients", dEarlierProofs: "announces other proofs", dEvalComm: "commits to a wrong evaluation for a party", dEvalCommOwn: "commits to a wrong evaluation for itself", dEvalCommPair: "commits to wrong evaluations for two parties",
	dEvalProof: "does not prove an evaluation", dEvalHigher: "takes a polynomial of higher degree", dEvalOther: "evaluates another polynomial", dEvalSent: "sends a wrong evaluation", dEvalSentRandom: "sends wrong randomness", dEvalSentBoth: "sends wrong evaluation and randomness", dEvalSentSwapped: "sends evaluation and randomness exchanged",
	dShareComm: "commits to a wrong new share", dShareProof: "does not prove its new share", dShareRandom: "commits to something unrelated", dUnreduced: "sends unreduced numbers", dLongEval: "sends numbers with leading zeros", dTrailing: "sends bytes after its messages"}

const forgeries = 8

var forgeNames = [forgeries]string{"computed as if true", "all zero", "copied from an honest party", "of another statement", "random", "of the right form with a wrong response", "with the other response", "of the same statement in another base"}

func (d deviation) String() string {
	null := ""
	if d.null {
		null = ", as neutral as possible"
	}
	return fmt.Sprintf("%s (at %d, by %x%s; false proofs %s, variant %d)", devNames[d.kind], d.at, d.delta, null, forgeNames[d.forge], d.forge)
}

func (p *puppet) h() ref.Pt { return ref.Base(p.k.dh) }

func (p *puppet) rand() *big.Int {
	if p.dev.scalar != nil {
		if x := p.dev.scalar(); x != nil {
			return x
		}
	}
	return coremon.RandScalar(p.r)
}

func (p *puppet) commit(v, r *big.Int) ref.Comm { return ref.Commit(p.h(), modN(v), modN(r)) }

// know proves knowledge of the opening (v, r) of cm.
func (p *puppet) know(cm ref.Comm, v, r *big.Int) ref.Proof {
	sigma, rho := p.rand(), p.rand()
	xy := p.commit(rho, sigma)
	e := ref.Hash(cm.Encode(), xy.Encode())
	return ref.Proof{Z1: modN(add(sigma, mul(e, r))), Z2: modN(add(rho, mul(e, v))), XY: xy}
}

// refresh proves that c2 is c1 with r more randomness.
func (p *puppet) refresh(c1, c2 ref.Comm, r *big.Int) ref.Proof {
	sigma := p.rand()
	xy := p.commit(bi(0), sigma)
	e := ref.Hash(c1.Encode(), c2.Encode(), xy.Encode())
	return ref.Proof{Z1: modN(add(sigma, mul(e, r))), Z2: e, XY: xy}
}

// falseKnow is a proof that does not hold for cm; v and r do not open cm, or prove changes them.
func (p *puppet) falseKnow(cm ref.Comm, v, r *big.Int, copied ref.Proof) ref.Proof {
	p.done = true
	v, r = add(v, bi(1)), r
	switch p.dev.forge {
	case 1:
		return ref.Proof{Z1: bi(0), Z2: bi(0), XY: ref.Comm{A: ref.Inf, B: ref.Inf}}
	case 2:
		return copied
	case 3:
		return p.know(p.commit(v, r), v, r)
	case 4:
		return ref.Proof{Z1: coremon.RandScalar(p.r), Z2: coremon.RandScalar(p.r), XY: p.commit(coremon.RandScalar(p.r), coremon.RandScalar(p.r))}
	case 5:
		pr := p.know(cm, v, r)
		pr.Z1 = modN(add(pr.Z1, p.dev.delta))
		return pr
	case 6:
		pr := p.know(cm, v, r)
		pr.Z1, pr.Z2 = pr.Z2, pr.Z1
		return pr
	case 7:
		// honest for the base h' = h+1
		h := ref.Base(add(p.k.dh, bi(1)))
		sigma, rho := p.rand(), p.rand()
		xy := ref.Commit(h, rho, sigma)
		e := ref.Hash(cm.Encode(), xy.Encode())
		return ref.Proof{Z1: modN(add(sigma, mul(e, r))), Z2: modN(add(rho, mul(e, v))), XY: xy}
	}
	return p.know(cm, v, r)
}

// falseRefresh is a refresh proof that does not hold; r is not what lies between c1 and c2.
func (p *puppet) falseRefresh(c1, c2 ref.Comm, r *big.Int, copied ref.Proof) ref.Proof {
	p.done = true
	switch p.dev.forge {
	case 1:
		return ref.Proof{Z1: bi(0), Z2: bi(0), XY: ref.Comm{A: ref.Inf, B: ref.Inf}}
	case 2:
		return copied
	case 3:
		s := p.rand()
		return p.refresh(c1, c1.Add(p.commit(bi(0), s)), s)
	case 4:
		return ref.Proof{Z1: coremon.RandScalar(p.r), Z2: coremon.RandScalar(p.r), XY: p.commit(bi(0), coremon.RandScalar(p.r))}
	case 5:
		pr := p.refresh(c1, c2, r)
		pr.Z1 = modN(add(pr.Z1, p.dev.delta))
		return pr
	case 6:
		// the challenge chosen
		z1, z2 := p.rand(), p.rand()
		xy := p.commit(bi(0), z1).Add(c1.Mul(z2)).Sub(c2.Mul(z2))
		return ref.Proof{Z1: z1, Z2: z2, XY: xy}
	case 7:
		// a proof of knowledge instead
		return p.know(c2, r, p.rand())
	}
	return p.refresh(c1, c2, add(r, bi(0)))
}

// wrong is another number than x.
func (p *puppet) wrong(x, other *big.Int) *big.Int {
	y := modN(add(x, p.dev.delta))
	switch p.dev.forge {
	case 1:
		y = bi(0)
	case 2:
		y = other
	case 3:
		y = modN(sub(bi(0), x))
	case 4:
		y = new(big.Int).Rsh(x, 8)
	case 5:
		y = new(big.Int).Lsh(x, 8)
	case 6:
		y = bi(1)
	case 7:
		y = new(big.Int).Xor(x, bi(1))
	}
	if modN(y).Cmp(modN(x)) != 0 {
		p.done = true
	}
	return y
}

// round exchanges messages; it never refuses anything.
func (p *puppet) round(toSend [][]byte) ([][]byte, error) {
	if p.dev.kind == dTrailing {
		for i := range toSend {
			toSend[i] = append(append([]byte{}, toSend[i]...), 0, 1, 2)
		}
	}
	got := make([][]byte, p.k.N)
	err := p.k.srv[p.pid].Round(toSend, func(from uint16, data []byte) error {
		got[from] = append([]byte{}, data...)
		return nil
	})
	return got, err
}

// honestProof finds a proof of an honest party in messages that start with skip commitments.
func (p *puppet) honestProof(got [][]byte, skip int) ref.Proof {
	for q, b := range got {
		if b == nil || has(p.bad, q) {
			continue
		}
		var err error
		for i := 0; i < skip && err == nil; i++ {
			_, b, err = ref.DecodeComm(b)
		}
		if err != nil {
			continue
		}
		if pr, _, err := ref.DecodeProof(b); err == nil {
			return pr
		}
	}
	return ref.Proof{Z1: bi(1), Z2: bi(1), XY: p.commit(bi(1), bi(1))}
}

// gen takes part in the generation of a secret.
func (p *puppet) gen() error {
	p.share, p.rnd = p.rand(), p.rand()
	own := p.commit(p.share, p.rnd)
	if p.dev.kind == dSecretUnknown {
		own = ref.Comm{A: ref.Base(coremon.RandScalar(p.r)), B: p.h().Add(ref.Base(coremon.RandScalar(p.r)))}
	}
	got, err := p.round([][]byte{own.Encode()})
	if err != nil {
		return err
	}
	p.comms = make([]ref.Comm, p.k.N)
	for q := range p.comms {
		if q == p.pid {
			p.comms[q] = own
		} else if p.comms[q], _, err = ref.DecodeComm(got[q]); err != nil {
			return err
		}
	}
	return nil
}

// eval is the value of a polynomial at x.
func eval(f []*big.Int, x int) *big.Int {
	s, pw := bi(0), bi(1)
	for _, a := range f {
		s.Add(s, mul(a, pw))
		pw = mul(pw, bi(int64(x)))
	}
	return modN(s)
}

func evalComm(f []ref.Comm, x int) ref.Comm {
	s := ref.Comm{A: ref.Inf, B: ref.Inf}
	pw := bi(1)
	for _, a := range f {
		s = s.Add(a.Mul(pw))
		pw = mul(pw, bi(int64(x)))
	}
	return s
}

// reshare takes part in a resharing.
func (p *puppet) reshare(t int) error {
	n, d := p.k.N, p.dev
	// 1
	own := p.comms[p.pid]
	first := p.know(own, p.share, p.rnd)
	noProof := p.k.someProof()
	switch d.kind {
	case dSecretUnknown, dSecretProof:
		first = p.falseKnow(own, p.share, p.rnd, noProof)
	}
	got, err := p.round([][]byte{first.Encode()})
	if err != nil {
		return err
	}
	copied := p.honestProof(got, 0)
	// 2 and 3
	f, rs := make([]*big.Int, t), make([]*big.Int, t)
	cms := make([]ref.Comm, t)
	knows := make([]ref.Proof, t)
	var fresh ref.Proof
	for i := range f {
		rs[i] = p.rand()
		if i == 0 {
			f[0] = p.share
			s := rs[0]
			rs[0] = modN(add(s, p.rnd))
			cms[0] = own.Add(p.commit(bi(0), s))
			switch d.kind {
			case dConstant:
				f[0] = modN(add(p.share, d.delta))
				cms[0] = cms[0].Add(p.commit(d.delta, bi(0)))
				if d.null {
					f[0], rs[0] = bi(0), bi(0)
					cms[0] = p.commit(bi(0), bi(0))
				}
				fresh = p.falseRefresh(own, cms[0], s, copied)
			case dConstantRerand:
				x := modN(add(d.delta, bi(1)))
				f[0], rs[0] = modN(mul(p.share, x)), modN(add(s, mul(p.rnd, x)))
				cms[0] = own.Mul(x).Add(p.commit(bi(0), s))
				fresh = p.falseRefresh(own, cms[0], s, copied)
			case dConstantProof:
				fresh = p.falseRefresh(own, cms[0], add(s, d.delta), copied)
			default:
				fresh = p.refresh(own, cms[0], s)
			}
		} else {
			f[i] = p.rand()
			cms[i] = p.commit(f[i], rs[i])
			if p.unknown(i, t) {
				cms[i] = cms[i].Add(p.comms[p.honest()])
				if d.null {
					cms[i] = p.comms[p.honest()]
				}
			}
		}
		if d.kind == dCoefProof && i == d.at%t || p.unknown(i, t) {
			knows[i] = p.falseKnow(cms[i], f[i], rs[i], copied)
		} else {
			knows[i] = p.know(cms[i], f[i], rs[i])
		}
	}
	// 4 and 5
	pack := func(cms []ref.Comm, knows []ref.Proof, fresh ref.Proof) (data, zkp []byte) {
		for _, cm := range cms {
			data = append(data, cm.Encode()...)
		}
		for _, pr := range knows {
			zkp = append(zkp, pr.Encode()...)
		}
		return data, append(zkp, fresh.Encode()...)
	}
	data, zkp := pack(cms, knows, fresh)
	adata, azkp := data, zkp
	switch d.kind {
	case dEarlierData:
		p.done = true
		c2 := append([]ref.Comm{}, cms...)
		c2[d.at%t] = c2[d.at%t].Add(p.commit(bi(0), d.delta))
		adata, _ = pack(c2, knows, fresh)
		switch d.forge {
		case 1:
			adata = nil
		case 2:
			adata = data[:len(data)-1]
		case 3:
			adata = append(append([]byte{}, data...), 0)
		case 4:
			adata = make([]byte, len(data))
			p.r.Read(adata)
		}
	case dEarlierProofs:
		p.done = true
		k2 := append([]ref.Proof{}, knows...)
		k2[d.at%t] = p.know(cms[d.at%t], f[d.at%t], rs[d.at%t])
		if k2[d.at%t].Z1.Cmp(knows[d.at%t].Z1) == 0 {
			k2[d.at%t].Z1 = modN(add(k2[d.at%t].Z1, bi(1)))
		}
		_, azkp = pack(cms, k2, fresh)
		switch d.forge {
		case 1:
			azkp = nil
		case 2:
			azkp = zkp[:len(zkp)-1]
		case 3:
			azkp = append(append([]byte{}, zkp...), 0)
		case 4:
			azkp = make([]byte, len(zkp))
			p.r.Read(azkp)
		}
	}
	head := make([]byte, 8)
	binary.LittleEndian.PutUint32(head, uint32(len(adata)))
	binary.LittleEndian.PutUint32(head[4:], uint32(len(azkp)))
	if _, err = p.round([][]byte{append(append(head, adata...), azkp...)}); err != nil {
		return err
	}
	if got, err = p.round([][]byte{append(append([]byte{}, data...), zkp...)}); err != nil {
		return err
	}
	copied = p.honestProof(got, t)
	// 6 and 7
	g, gr := f, rs
	switch d.kind {
	case dEvalHigher:
		g, gr = append(append([]*big.Int{}, f...), d.delta), append(append([]*big.Int{}, rs...), bi(0))
	case dEvalOther:
		g = append([]*big.Int{}, f...)
		for i := 1; i < t; i++ {
			g[i] = add(g[i], d.delta)
		}
	}
	evals, evalRs := make([]*big.Int, n), make([]*big.Int, n)
	evalCms := make([]ref.Comm, n)
	evalPrs := make([]ref.Proof, n)
	for l := 0; l < n; l++ {
		s := p.rand()
		evals[l], evalRs[l] = eval(g, l+1), modN(add(s, eval(gr, l+1)))
		shift := bi(0)
		switch {
		case d.kind == dEvalComm && l == d.at%n, d.kind == dEvalCommOwn && l == p.pid, d.kind == dEvalCommPair && l == d.at%n:
			shift = d.delta
		case d.kind == dEvalCommPair && l == (d.at+1)%n:
			shift = modN(sub(bi(0), d.delta))
		}
		evals[l] = modN(add(evals[l], shift))
		if d.null && shift.Sign() != 0 {
			evals[l], evalRs[l] = bi(0), bi(0)
		}
		evalCms[l] = p.commit(evals[l], evalRs[l])
		from := evalComm(cms, l+1)
		if !evalCms[l].Eq(from.Add(p.commit(bi(0), s))) {
			evalPrs[l] = p.falseRefresh(from, evalCms[l], s, copied)
		} else if d.kind == dEvalProof && l == d.at%n {
			evalPrs[l] = p.falseRefresh(from, evalCms[l], add(s, d.delta), copied)
		} else {
			evalPrs[l] = p.refresh(from, evalCms[l], s)
		}
	}
	var msg []byte
	for _, cm := range evalCms {
		msg = append(msg, cm.Encode()...)
	}
	for _, pr := range evalPrs {
		msg = append(msg, pr.Encode()...)
	}
	if got, err = p.round([][]byte{msg}); err != nil {
		return err
	}
	copied = p.honestProof(got, n)
	all := make([][]ref.Comm, n)
	for q := range all {
		if q == p.pid {
			all[q] = evalCms
			continue
		}
		b := got[q]
		for l := 0; l < n; l++ {
			var cm ref.Comm
			if cm, b, err = ref.DecodeComm(b); err != nil {
				return err
			}
			all[q] = append(all[q], cm)
		}
	}
	// 8
	toSend := make([][]byte, n)
	for l := range toSend {
		e, er := evals[l], evalRs[l]
		target := d.at % n
		if has(p.bad, target) {
			target = p.honest()
		}
		if l == target {
			switch d.kind {
			case dEvalSent:
				e = p.wrong(e, evals[(l+1)%n])
			case dEvalSentRandom:
				er = p.wrong(er, evalRs[(l+1)%n])
			case dEvalSentBoth:
				e, er = p.wrong(e, evals[(l+1)%n]), p.wrong(er, evalRs[(l+1)%n])
			case dEvalSentSwapped:
				if e.Cmp(er) != 0 {
					p.done = true
					e, er = er, e
				}
			}
		}
		if d.kind == dUnreduced {
			e, er = add(e, mul(ref.N, d.delta)), add(er, ref.N)
		}
		eb, erb := e.Bytes(), er.Bytes()
		if d.kind == dLongEval {
			eb, erb = append(make([]byte, 5), eb...), append(make([]byte, 40), erb...)
		}
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, uint32(len(eb)))
		toSend[l] = append(append(b, eb...), erb...)
	}
	if got, err = p.round(toSend); err != nil {
		return err
	}
	// 9
	share, rr := evals[p.pid], evalRs[p.pid]
	for q, b := range got {
		if q == p.pid {
			continue
		}
		e, er, err := evalsOf(b)
		if err != nil {
			return err
		}
		share, rr = add(share, e), add(rr, er)
	}
	share, rr = modN(share), modN(rr)
	sums := make([]ref.Comm, n)
	for l := range sums {
		sums[l] = ref.Comm{A: ref.Inf, B: ref.Inf}
		for q := range all {
			sums[l] = sums[l].Add(all[q][l])
		}
	}
	// 10
	s := p.rand()
	nshare, nr := share, modN(add(rr, s))
	last := sums[p.pid].Add(p.commit(bi(0), s))
	var lastPr ref.Proof
	switch d.kind {
	case dShareComm:
		nshare = modN(add(share, d.delta))
		last = last.Add(p.commit(d.delta, bi(0)))
		if d.null {
			last = p.commit(bi(0), bi(0))
		}
		lastPr = p.falseRefresh(sums[p.pid], last, s, copied)
	case dShareProof:
		lastPr = p.falseRefresh(sums[p.pid], last, add(s, d.delta), copied)
	case dShareRandom:
		last = ref.Comm{A: ref.Base(p.rand()), B: ref.Base(p.rand())}
		lastPr = p.falseRefresh(sums[p.pid], last, s, copied)
	default:
		lastPr = p.refresh(sums[p.pid], last, s)
	}
	if got, err = p.round([][]byte{append(lastPr.Encode(), last.Encode()...)}); err != nil {
		return err
	}
	for q := range p.comms {
		if q == p.pid {
			sums[q] = last
			continue
		}
		_, b, err := ref.DecodeProof(got[q])
		if err != nil {
			return err
		}
		if sums[q], _, err = ref.DecodeComm(b); err != nil {
			return err
		}
	}
	p.comms, p.share, p.rnd = sums, nshare, nr
	return nil
}

func evalsOf(b []byte) (*big.Int, *big.Int, error) {
	return evals(b)
}

// reveal sends the share, exp its public key.
func (p *puppet) reveal() error {
	_, err := p.round([][]byte{p.share.Bytes()})
	return err
}

func (p *puppet) exp() error {
	_, err := p.round([][]byte{ref.Base(p.share).Encode()})
	return err
}

// honest is some honest party.
func (p *puppet) honest() int {
	for q := 0; q < p.k.N; q++ {
		if !has(p.bad, q) {
			return q
		}
	}
	return p.pid
}

// someProof is a valid proof of something else.
func (k *kit) someProof() ref.Proof {
	h := ref.Base(k.dh)
	cm := ref.Commit(h, bi(7), bi(9))
	xy := ref.Commit(h, bi(3), bi(5))
	e := ref.Hash(cm.Encode(), xy.Encode())
	return ref.Proof{Z1: modN(add(bi(5), mul(e, bi(9)))), Z2: modN(add(bi(3), mul(e, bi(7)))), XY: xy}
}

// pub is the public key of the sum of the shares.
func (p *puppet) pub() ref.Pt {
	s := ref.Inf
	for _, cm := range p.comms {
		s = s.Add(cm.Open(p.k.dh))
	}
	return s
}

// unknown says whether coefficient i is to be one that nobody knows.
func (p *puppet) unknown(i, t int) bool {
	return p.dev.kind == dCoefUnknown && i > 0 && i == 1+p.dev.at%(t-1)
}
