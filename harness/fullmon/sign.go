package fullmon

import (
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"aaa.vmon/ref"
	"aaa.vmon/simnet"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/arith"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/tecdsa"
)

// signers is a set of parties that have initialised the signing protocol.
type signers struct {
	k     *kit
	proto []*tecdsa.Protocol
	x, h  *big.Int // signing key, discrete logarithm of the commitment key
	pk    ref.Pt

	changed []bool // whether the last call of Sign changed the message it was given
}

// keyPoints finds the signing and the commitment key that a party keeps, by the names of its fields.
func keyPoints(k *kit, p *tecdsa.Protocol) (sign, comm *ref.Pt) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() != reflect.TypeOf((*arith.DKey)(nil)) || f.IsNil() {
			continue
		}
		q := k.pt((*(**arith.DKey)(unsafe.Pointer(f.UnsafeAddr()))).PublicKey())
		name := strings.ToLower(v.Type().Field(i).Name)
		if strings.Contains(name, "eg") || strings.Contains(name, "comm") || name == "h" || name == "hkey" {
			comm = &q
		} else {
			sign = &q
		}
	}
	if sign == nil || comm == nil {
		return nil, nil
	}
	return sign, comm
}

// signers runs Init and finds the keys in what the parties drew.
func (k *kit) signers(r *rand.Rand) *signers {
	w := &signers{k: k, proto: make([]*tecdsa.Protocol, k.N), changed: make([]bool, k.N)}
	k.startLog()
	m := k.Mark()
	errs := k.AllCut(func(p int) (err error) {
		w.proto[p], err = tecdsa.Init(uint16(p), uint16(k.N), k.srv[p])
		return err
	})
	if !k.ok("Init", errs) {
		return nil
	}
	signPt, commPt := keyPoints(k, w.proto[0])
	w.x, w.h, w.pk = bi(0), bi(0), ref.Inf
	if k.N == 1 {
		// nothing is sent, and nothing depends on the commitment key
		log := k.Rnd[0].Log()
		if signPt != nil {
			if x := dlog(*signPt, log); x != nil {
				w.x = x
			}
			if h := dlog(*commPt, log); h != nil {
				w.h = h
			}
		} else {
			w.x = cands(log[:1])[0]
		}
		w.pk = ref.Base(w.x)
		return w
	}
	fr := k.rounds(k.FramesSince(m))
	if len(fr) != 4 {
		k.c.Violate("frames", "%s\nInit has %d rounds", k.desc, len(fr))
		return nil
	}
	keys, pts := []*big.Int{bi(0), bi(0)}, []ref.Pt{ref.Inf, ref.Inf}
	for p := 0; p < k.N; p++ {
		log := k.Rnd[p].Log()
		for i, v := range keys {
			q, _, err := ref.DecodePt(sentBy(fr[1+2*i][p]))
			if err != nil {
				k.c.Violate("frames", "%s\nInit sends no point", k.desc)
				return nil
			}
			s := dlog(q, log)
			if s == nil {
				k.c.Violate("share", "%s\nInit: the key share of party %d is nothing that it drew", k.desc, p)
				return nil
			}
			v.Set(modN(add(v, s)))
			pts[i] = pts[i].Add(q)
		}
	}
	// the signing key is made first, unless the fields tell otherwise
	s := 0
	if signPt != nil && signPt.Eq(pts[1]) && commPt.Eq(pts[0]) {
		s = 1
	}
	w.x, w.h, w.pk = keys[s], keys[1-s], pts[s]
	return w
}

// presigned is a presignature as the monitor sees it: four secrets, whose roles (k, rho, eta, tau)
// show when it is used. In a committee of one, where nothing is sent, they are among what was drawn.
type presigned struct {
	mark   int
	t      int
	shares [4][]*big.Int
	val    [4]*big.Int
	pub    [4]ref.Pt
	hashes [4]*big.Int
	gen    [4][][][]*simnet.Frame // the round of each generation
	resh   [4][][][]*simnet.Frame // the rounds of each resharing

	drawn  []*big.Int
	byHash map[string]*big.Int

	named map[string]*big.Int // the secrets by the names that the code gives them, if it does
}

// share reads what a party holds of a secret, by the name of the field.
func share(s *arith.TDSecret) *big.Int {
	if s == nil {
		return nil
	}
	f := reflect.ValueOf(s).Elem().FieldByName("skShare")
	if !f.IsValid() || f.Type() != reflect.TypeOf((*big.Int)(nil)) {
		return nil
	}
	return *(**big.Int)(unsafe.Pointer(f.UnsafeAddr()))
}

// presigs lists the presignatures that a party keeps, as secrets with their names.
func presigs(p *tecdsa.Protocol) []map[string]*arith.TDSecret {
	v := reflect.ValueOf(p).Elem()
	var out []map[string]*arith.TDSecret
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice {
			continue
		}
		for j := 0; j < f.Len(); j++ {
			e := f.Index(j)
			if e.Kind() == reflect.Ptr && !e.IsNil() {
				e = e.Elem()
			}
			if e.Kind() != reflect.Struct || !e.CanAddr() {
				continue
			}
			m := map[string]*arith.TDSecret{}
			for x := 0; x < e.NumField(); x++ {
				if g := e.Field(x); g.Type() == reflect.TypeOf((*arith.TDSecret)(nil)) {
					m[e.Type().Field(x).Name] = *(**arith.TDSecret)(unsafe.Pointer(g.UnsafeAddr()))
				}
			}
			if len(m) == 4 {
				out = append(out, m)
			}
		}
	}
	return out
}

// names finds the secrets of a presignature among those that the parties keep.
func (w *signers) names(pr *presigned) {
	known := map[string]bool{}
	for _, x := range pr.val {
		if x != nil {
			known[x.String()] = true
		}
	}
	for _, x := range pr.drawn {
		known[x.String()] = true
	}
	var all [][]map[string]*arith.TDSecret
	for p := range w.proto {
		all = append(all, presigs(w.proto[p]))
	}
next:
	for i := range all[0] {
		out := map[string]*big.Int{}
		for _, name := range []string{"k", "rho", "eta", "tau"} {
			var set []int
			var ys []*big.Int
			for p := range all {
				if len(all[p]) != len(all[0]) {
					return
				}
				y := share(all[p][i][name])
				if y == nil {
					continue next
				}
				set, ys = append(set, p), append(ys, y)
			}
			if out[name] = modN(interpolate(set, ys)); !known[out[name].String()] {
				continue next
			}
		}
		pr.named = out
		return
	}
}

// solved tells whether a signature solves the equation with the secrets as the code names them.
func (pr *presigned) solved(m, r, s *big.Int) bool {
	if pr.named == nil {
		return true
	}
	return ref.Hash(ref.Base(pr.named["k"]).Encode()).Cmp(r) == 0 &&
		modN(mul(s, pr.named["tau"])).Cmp(modN(add(mul(m, pr.named["rho"]), mul(r, pr.named["eta"])))) == 0
}

func (w *signers) presignErrs(pids []int, t int) []error {
	return w.k.Some(pids, func(p int) error { return w.proto[p].Presign(uint16(t)) })
}

// presign makes a presignature at all parties and reads its secrets.
func (w *signers) presign(t int) *presigned {
	k := w.k
	k.startLog()
	pr := &presigned{mark: k.Mark(), t: t}
	if !k.ok(fmt.Sprintf("Presign(%d)", t), w.presignErrs(k.alive(), t)) {
		return nil
	}
	if pr = w.read(pr); pr != nil && len(k.alive()) == k.N {
		w.names(pr)
	}
	return pr
}

// step is a part of Presign: generating or resharing one of the four secrets.
type step struct {
	reshare bool
	of      int
}

// layout tells generations from resharings in the rounds of Presign, and finds what is reshared by
// the constant coefficients of party 0, opened under h.
func layout(fr [][][]*simnet.Frame, h *big.Int) (steps []step, at []int, err error) {
	var gens []ref.Pt
	for i := 0; i < len(fr); {
		isGen := true
		for p := range fr[i] {
			_, rest, err := ref.DecodeComm(sentBy(fr[i][p]))
			isGen = isGen && err == nil && len(rest) == 0
		}
		at = append(at, i)
		if isGen {
			cm, _, _ := ref.DecodeComm(sentBy(fr[i][0]))
			steps = append(steps, step{false, len(gens)})
			gens = append(gens, cm.Open(h))
			i++
			continue
		}
		if i+6 > len(fr) {
			return nil, nil, fmt.Errorf("%d rounds at the end", len(fr)-i)
		}
		cm, _, err := ref.DecodeComm(sentBy(fr[i+2][0]))
		if err != nil {
			return nil, nil, fmt.Errorf("no commitment to a coefficient in round %d", i+2)
		}
		of := -1
		for g, q := range gens {
			if q.Eq(cm.Open(h)) {
				of = g
			}
		}
		if of < 0 {
			return nil, nil, fmt.Errorf("what is reshared in round %d has not been generated before", i)
		}
		steps = append(steps, step{true, of})
		i += 6
	}
	seen := map[step]bool{}
	for _, st := range steps {
		seen[st] = true
	}
	if len(steps) != 8 || len(seen) != 8 || len(gens) != 4 {
		return nil, nil, fmt.Errorf("generations and resharings: %v", steps)
	}
	return steps, at, nil
}

func (w *signers) read(pr *presigned) *presigned {
	k := w.k
	if k.N == 1 {
		pr.drawn = cands(k.Rnd[0].Log())
		pr.byHash = map[string]*big.Int{}
		for _, x := range pr.drawn {
			pr.byHash[ref.Hash(ref.Base(x).Encode()).String()] = x
		}
		return pr
	}
	fr := k.rounds(k.FramesSince(pr.mark))
	n := 0
	for i := range fr {
		cm, rest, err := ref.DecodeComm(sentBy(fr[i][0]))
		if err != nil || len(rest) > 0 {
			continue
		}
		n++
		for p := 0; p < k.N; p++ {
			if cm, _, err = ref.DecodeComm(sentBy(fr[i][p])); err != nil {
				continue
			}
			if log := k.Rnd[p].Log(); dlog(cm.Open(w.h), log) == nil {
				extra := ""
				if dlog(cm.Open(w.x), log) != nil {
					extra = "; under the signing key it does"
				}
				k.c.Violate("commitment-key", "%s\nPresign: commitment %d of party %d does not open, under the commitment key, to anything it drew%s", k.desc, n, p, extra)
				return nil
			}
		}
	}
	steps, at, err := layout(fr, w.h)
	if err != nil {
		k.c.Violate("frames", "%s\nPresign has strange rounds: %v", k.desc, err)
		return nil
	}
	for i, st := range steps {
		j := st.of
		if st.reshare {
			pr.resh[j] = fr[at[i] : at[i]+6]
			continue
		}
		pr.gen[j] = fr[at[i] : at[i]+1]
		pr.pub[j] = ref.Inf
		for p := 0; p < k.N; p++ {
			cm, _, _ := ref.DecodeComm(sentBy(fr[at[i]][p]))
			pt := cm.Open(w.h)
			pr.shares[j] = append(pr.shares[j], dlog(pt, k.Rnd[p].Log()))
			pr.pub[j] = pr.pub[j].Add(pt)
		}
		pr.val[j] = sum(pr.shares[j])
		pr.hashes[j] = ref.Hash(pr.pub[j].Encode())
	}
	return pr
}

// isNonce tells whether r is the hash of one of the secrets' public keys.
func (pr *presigned) isNonce(r *big.Int) bool {
	if r == nil {
		return false
	}
	if pr.byHash != nil {
		return pr.byHash[r.String()] != nil
	}
	for _, h := range pr.hashes {
		if h.Cmp(r) == 0 {
			return true
		}
	}
	return false
}

// holds tells whether the point is the public key of one of the secrets.
func (pr *presigned) holds(q ref.Pt) bool {
	for _, p := range pr.pub {
		if p.Eq(q) {
			return true
		}
	}
	return false
}

// roles finds secrets rho, eta, tau, all different from k, that solve the signing equation.
func (pr *presigned) roles(m, r, s *big.Int) (rho, eta, tau int, ok bool) {
	if pr.byHash != nil {
		left := map[string]int{}
		for i, x := range pr.drawn {
			left[modN(mul(s, x)).String()] = i
		}
		for i, x := range pr.drawn {
			for j, y := range pr.drawn {
				if l, is := left[modN(add(mul(m, x), mul(r, y))).String()]; is && i != j && i != l && j != l {
					return i, j, l, true
				}
			}
		}
		return 0, 0, 0, false
	}
	k := 0
	for k < 4 && pr.hashes[k].Cmp(r) != 0 {
		k++
	}
	for rho := 0; rho < 4; rho++ {
		for eta := 0; eta < 4; eta++ {
			tau := 6 - k - rho - eta
			if k > 3 || rho == k || eta == k || rho == eta || tau < 0 || tau > 3 || tau == rho || tau == eta || tau == k {
				continue
			}
			if modN(mul(s, pr.val[tau])).Cmp(modN(add(mul(m, pr.val[rho]), mul(r, pr.val[eta])))) == 0 {
				return rho, eta, tau, true
			}
		}
	}
	return 0, 0, 0, false
}

func (w *signers) sign(pids []int, m *big.Int) ([]*tecdsa.Signature, []error) {
	out := make([]*tecdsa.Signature, w.k.N)
	errs := w.k.Some(pids, func(p int) (err error) {
		mp := new(big.Int).Set(m)
		out[p], err = w.proto[p].Sign(mp)
		w.changed[p] = mp.Cmp(m) != 0
		return err
	})
	return out, errs
}

// parts reads the integers of a signature, r first.
func parts(s *tecdsa.Signature) []*big.Int {
	v := reflect.ValueOf(s).Elem()
	get := func(f reflect.Value) *big.Int {
		if f.Type() == reflect.TypeOf((*big.Int)(nil)) {
			return *(**big.Int)(unsafe.Pointer(f.UnsafeAddr()))
		}
		if f.Type() == reflect.TypeOf(big.Int{}) {
			return (*big.Int)(unsafe.Pointer(f.UnsafeAddr()))
		}
		return nil
	}
	var out []*big.Int
	for _, names := range [][]string{{"r", "R"}, {"s", "S"}} {
		for _, n := range names {
			if f := v.FieldByName(n); f.IsValid() {
				if x := get(f); x != nil {
					out = append(out, x)
				}
			}
		}
	}
	if len(out) == 2 {
		return out
	}
	out = nil
	for i := 0; i < v.NumField(); i++ {
		if x := get(v.Field(i)); x != nil {
			out = append(out, x)
		}
	}
	return out
}

var _ = simnet.RawFrame
