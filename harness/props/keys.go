package props

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// keyCtx verifies key material against its defining equations.
type keyCtx struct {
	c      *Case
	p      mkrlwe.Parameters
	qp     *QP
	bound  int64
	gadget [][]uint64         // gadget[i][limb]
	errs   map[string]string  // every error vector seen -> where
	crs    map[string]int     // kind of key -> CRS index it was found to use
	masks  map[string][]Limbs // kind -> masks (plain NTT)
	sum2   float64
	sum    float64
	cnt    float64
	sigma  float64
	pk     [][]int64             // the first and the latest error vectors
	win    *windows              // stretches of the error vectors
	kinds  map[string][3]float64 // kind of sample -> sum of squares, number of coefficients, number beyond three sigma
}

func newKeyCtx(c *Case, p mkrlwe.Parameters) *keyCtx {
	k := &keyCtx{c: c, p: p, qp: NewQP(p), bound: int64(6 * p.Sigma()), errs: map[string]string{},
		crs: map[string]int{}, masks: map[string][]Limbs{}, kinds: map[string][3]float64{}, sigma: p.Sigma()}
	P := ProdQ(p.RingP().Modulus, 0, p.PCount()-1)
	pl := k.qp.Scalar(P)
	alpha := p.Alpha()
	for i := 0; i*alpha < p.QCount(); i++ {
		g := make([]uint64, len(k.qp.Mod))
		for j := i * alpha; j < (i+1)*alpha && j < p.QCount(); j++ {
			g[j] = pl[j]
		}
		k.gadget = append(k.gadget, g)
	}
	return k
}

func (k *keyCtx) crsLimbs(idx int) []Limbs {
	var o []Limbs
	for _, v := range k.p.CRS[idx].Value {
		o = append(o, k.qp.Read(v, true))
	}
	return o
}

// note records an error vector.
func (k *keyCtx) note(kind, where string, e []int64) {
	kind = strings.TrimRight(kind, "0123456789")
	key := fmt.Sprint(e)
	if old, in := k.errs[key]; in {
		k.c.Fatal("error-reused", "%s has exactly the error of %s", where, old)
	}
	k.errs[key] = where
	var zeros, sq, tail float64
	far := k.far()
	for _, v := range e {
		if abs64(v) >= far {
			tail++
		}
		sq += float64(v * v)
		k.sum += float64(v)
		if v == 0 {
			zeros++
		}
	}
	n := float64(len(e))
	k.sum2 += sq
	k.cnt += n
	if zeros == n {
		k.c.Fatal("error-zero", "%s has no error at all", where)
	}
	// a rounded Gaussian takes no value with more than probability 1/(sigma sqrt(2 pi))
	p0 := math.Min(1, 0.4/k.sigma+0.01)
	if lim := p0*n + 9*math.Sqrt(p0*n) + 4; zeros > lim {
		k.c.Fatal("error-zero", "%s: %g of the %g coefficients of the error are zero", where, zeros, n)
	}
	// nor do two independent ones agree (up to sign) in more than a few coefficients
	p1 := math.Min(1, 0.283/k.sigma+0.01)
	lim := p1*n + 9*math.Sqrt(p1*n) + 4
	for i, o := range k.pk {
		var eq, ne float64
		for j, v := range e {
			if v == o[j] {
				eq++
			}
			if v == -o[j] {
				ne++
			}
		}
		if eq > lim || ne > lim {
			k.c.Fatal("error-reused", "%s: its error and an earlier one (%d of the compared) agree in %g and are opposite in %g of %g coefficients", where, i, eq, ne, n)
		}
	}
	if len(k.pk) < 24 {
		k.pk = append(k.pk, e)
	} else {
		// keep the first eight and a moving window
		copy(k.pk[8:], k.pk[9:])
		k.pk[23] = e
	}
	if k.win == nil {
		k.win = newWindows(math.Log2(math.Max(1.2, 2*k.sigma*math.Sqrt(math.Pi))))
	}
	if d := k.win.note(where, e); d != "" {
		k.c.Fatal("error-reused", "%s", d)
	}
	t := k.kinds[kind]
	k.kinds[kind] = [3]float64{t[0] + sq, t[1] + n, t[2] + tail}
}

// windows finds stretches of a sampled polynomial that appear again, in itself or in
// another polynomial, with either sign and in either direction. A stretch is long
// enough (140 bits of collision entropy) never to repeat by chance.
type windows struct {
	length int
	pow    uint64
	where  []string
	vecs   [][]int64
	at     map[uint64][2]int32
	stored int
}

const (
	winMul  = 0x9e3779b97f4a7c15
	winStep = 16
)

func newWindows(bits float64) *windows {
	w := &windows{length: int(math.Ceil(140 / bits)), pow: 1, at: map[uint64][2]int32{}}
	for i := 0; i < w.length; i++ {
		w.pow *= winMul
	}
	return w
}

// note compares a polynomial with the ones before it, and remembers it.
func (w *windows) note(where string, e []int64) string {
	n := len(e)
	if n < w.length+winStep || n >= 1<<17 {
		return ""
	}
	keep := w.stored < 1<<21
	if keep {
		w.stored += n
		w.vecs, w.where = append(w.vecs, e), append(w.where, where)
	}
	for dir := 0; dir < 2; dir++ {
		at := func(i int) int64 { return e[i] }
		if dir == 1 {
			at = func(i int) int64 { return e[n-1-i] }
		}
		var h uint64
		for i := 0; i < n; i++ {
			h = h*winMul + uint64(at(i))
			if i >= w.length {
				h -= w.pow * uint64(at(i-w.length))
			}
			if i < w.length-1 {
				continue
			}
			for _, sign := range []int64{1, -1} {
				x, in := w.at[uint64(sign)*h]
				if !in {
					continue
				}
				v, same := w.vecs[x[0]], true
				for j := 0; j < w.length && same; j++ {
					same = v[int(x[1])-j]*sign == at(i-j)
				}
				if same {
					return fmt.Sprintf("%s: %d coefficients in a row (the last one is number %d, direction %d) are those of %s (up to %d), sign %d", where, w.length, i, dir, w.where[x[0]], x[1], sign)
				}
			}
			if dir == 0 && keep && i%winStep == 0 {
				w.at[h] = [2]int32{int32(len(w.vecs) - 1), int32(i)}
			}
		}
	}
	return ""
}

// far is where the tails begin, at three standard deviations.
func (k *keyCtx) far() int64 { return int64(math.Ceil(3 * k.sigma)) }

// noteStats compares the spread of all errors with the one asked for.
func (k *keyCtx) noteStats() {
	if k.cnt < 200 {
		return
	}
	want := k.sigma*k.sigma + 1.0/12
	v := k.sum2 / k.cnt
	tol := want * (0.03 + 9*math.Sqrt(2/k.cnt))
	k.c.Stat("error-variance-deviation/tolerance", math.Abs(v-want)/tol)
	if math.Abs(v-want) > tol {
		k.c.Fatal("error-spread", "variance of %g key error coefficients is %g, expected %g +- %g", k.cnt, v, want, tol)
	}
	for kind, t := range k.kinds {
		if t[1] < 200 {
			continue
		}
		if v := t[0] / t[1]; math.Abs(v-want) > want*(0.03+9*math.Sqrt(2/t[1])) {
			k.c.Fatal("error-spread", "%s: variance of %g error coefficients is %g, expected %g", kind, t[1], v, want)
		}
		// a Gaussian cut off too early has lost its tails
		if exp := t[1] * math.Erfc((float64(k.far())-0.5)/(k.sigma*math.Sqrt2)); exp > 40 && k.far() < k.bound-2 {
			d := math.Abs(t[2]-exp) / (0.1*exp + 9*math.Sqrt(exp))
			k.c.Stat("error-tail-deviation/tolerance", d)
			if d > 1 {
				k.c.Fatal("error-spread", "%s: %g of %g error coefficients are %d or more in absolute value, expected %g", kind, t[2], t[1], k.far(), exp)
			}
		}
	}
	if m := k.sum / k.cnt; math.Abs(m) > 9*math.Sqrt(want/k.cnt)+0.02 {
		k.c.Fatal("error-spread", "mean of %g key error coefficients is %g", k.cnt, m)
	}
}

// equations verifies that, for every i, x_i + mask_i*s - gadget_i*t is a small error.
// The masks are those of CRS[crs]; should they not fit, any other CRS that does is
// accepted (which one is used is an internal matter), but remembered for the mask checks.
func (k *keyCtx) equations(kind, where string, x []Limbs, crs int, s Limbs, gadget [][]uint64, t Limbs) {
	if len(x) != len(gadget) {
		k.c.Fatal("shape", "%s: %d elements instead of %d", where, len(x), len(gadget))
	}
	try := func(idx, i int, m Limbs) ([]int64, string) {
		y := x[i]
		if m != nil {
			y = k.qp.MulAdd(y, m, s, nil, false)
		}
		if t != nil {
			y = k.qp.MulAdd(y, t, nil, gadget[i], true)
		}
		return k.qp.SmallCoeffs(y, k.bound)
	}
	var ms []Limbs
	if s != nil {
		if known, in := k.crs[kind]; in {
			crs = known
		}
		ms = k.crsLimbs(crs)
		if e, _ := try(crs, 0, ms[0]); e == nil {
			for idx := range k.p.CRS {
				other := k.crsLimbs(idx)
				if e, _ := try(idx, 0, other[0]); e != nil {
					crs, ms = idx, other
					break
				}
			}
		}
		k.crs[kind] = crs
		k.masks[kind] = ms
	}
	for i := range x {
		var m Limbs
		if ms != nil {
			m = ms[i]
		}
		e, why := try(crs, i, m)
		if e == nil {
			k.c.Fatal("key-equation", "%s, element %d of %d: the defining equation does not hold with a small error: %s", where, i, len(x), why)
		}
		k.note(kind, fmt.Sprintf("%s[%d]", where, i), e)
	}
}

func (k *keyCtx) swk(v *mkrlwe.SwitchingKey) (o []Limbs) {
	for _, x := range v.Value {
		o = append(o, k.qp.Read(x, true))
	}
	return
}

// publicKey verifies pk0 + pk1 s = e.
func (k *keyCtx) publicKey(where string, pk *mkrlwe.PublicKey, s Limbs) {
	b, a := k.qp.Read(pk.Value[0], false), k.qp.Read(pk.Value[1], false)
	e, why := k.qp.SmallCoeffs(k.qp.MulAdd(b, a, s, nil, false), k.bound)
	if e == nil {
		k.c.Fatal("key-equation", "%s: pk0 + pk1*s is not a small error: %s", where, why)
	}
	k.note("pk", where, e)
	for i := 0; ; i++ {
		kind := fmt.Sprintf("pk%d", i)
		if _, in := k.masks[kind]; !in {
			k.masks[kind] = []Limbs{a}
			break
		}
	}
	k.uniform(where+" mask", a)
}

// uniform refuses a mask that is visibly not uniform modulo every prime.
func (k *keyCtx) uniform(where string, m Limbs) {
	seen := map[[2]uint64]int{}
	for l, cf := range m {
		q, n := float64(k.qp.Mod[l]), float64(len(cf))
		var s, lo float64
		for _, y := range cf {
			s += float64(y) / q
			if float64(y) < q/2 {
				lo++
			}
		}
		if d := math.Abs(s/n - 0.5); d > 9*math.Sqrt(1/(12*n)) {
			k.c.Fatal("mask", "%s, limb %d: mean %g of the modulus, not uniform", where, l, s/n)
		}
		if d := math.Abs(lo/n - 0.5); d > 9*math.Sqrt(1/(4*n)) {
			k.c.Fatal("mask", "%s, limb %d: a fraction %g lies below half of the modulus", where, l, lo/n)
		}
		for j, y := range cf {
			if j+1 < len(cf) && y == cf[j+1] {
				if j+2 < len(cf) && y == cf[j+2] {
					k.c.Fatal("mask", "%s, limb %d: coefficients %d to %d are all %d", where, l, j, j+2, y)
				}
			}
		}
		if o, in := seen[[2]uint64{cf[0], cf[1]}]; in {
			k.c.Fatal("mask", "%s: limbs %d and %d begin with the same coefficients", where, o, l)
		}
		seen[[2]uint64{cf[0], cf[1]}] = l
	}
}

func snapSK(sk *mkrlwe.SecretKey) [][]uint64 {
	return append(copyLimbs(sk.Value.Q.Coeffs), copyLimbs(sk.Value.P.Coeffs)...)
}

func snapSwk(v *mkrlwe.SwitchingKey) (o [][]uint64) {
	for _, x := range v.Value {
		o = append(o, copyLimbs(x.Q.Coeffs)...)
		o = append(o, copyLimbs(x.P.Coeffs)...)
	}
	return
}

func snapCRS(p mkrlwe.Parameters) map[int][][]uint64 {
	o := map[int][][]uint64{}
	for idx, v := range p.CRS {
		o[idx] = snapSwk(v)
	}
	return o
}

func crsChanged(old map[int][][]uint64, p mkrlwe.Parameters) string {
	for idx, v := range old {
		if p.CRS[idx] == nil {
			return fmt.Sprintf("CRS[%d] is gone", idx)
		}
		if d := diffLimbs(v, snapSwk(p.CRS[idx])); d != "" {
			return fmt.Sprintf("CRS[%d]: %s", idx, d)
		}
	}
	return ""
}

// bfvGadget is G_i = floor(QQMul/D_i * T * [(QQMul/D_i)^-1]_{D_i} * P / QMul) for the digits D_i of Q (or QMul).
func bfvGadget(k *keyCtx, p mkbfv.Parameters, mul bool) (o [][]uint64) {
	Q, M := p.RingQ().ModulusBigint, p.RingQMul().ModulusBigint
	QM := new(big.Int).Mul(Q, M)
	P := p.RingP().ModulusBigint
	T := new(big.Int).SetUint64(p.T())
	mod := p.RingQ().Modulus
	if mul {
		mod = p.RingQMul().Modulus
	}
	alpha := p.Alpha()
	for i := 0; i < len(mod); i += alpha {
		D := ProdQ(mod, i, mini(i+alpha, len(mod))-1)
		h := new(big.Int).Div(QM, D)
		inv := new(big.Int).ModInverse(h, D)
		g := new(big.Int).Mul(h, T)
		g.Mul(g, inv)
		g.Mul(g, P)
		g.Div(g, M)
		o = append(o, k.qp.Scalar(g))
	}
	return
}

type keyParty struct {
	id    string
	sk, r *mkrlwe.SecretKey
	s     Limbs
	sInt  []int64
	rInt  []int64
	pk    *mkrlwe.PublicKey
}

// genSecret draws a secret key through a random entry point and checks it.
func genSecret(c *Case, p mkrlwe.Parameters, kg *mkrlwe.KeyGenerator, id string) (sk *mkrlwe.SecretKey, pk *mkrlwe.PublicKey, how string) {
	n := p.N()
	hw := c.Range(1, n)
	prob := 0.1 + 0.8*c.Float64()
	how = Pick(c.Rng, "pair", "pair-sparse", "ternary", "distrib", "gaussian", "sparse")
	switch how {
	case "pair":
		sk, pk = kg.GenKeyPair(id)
	case "pair-sparse":
		sk, pk = kg.GenKeyPairSparse(hw, id)
	case "ternary":
		sk = kg.GenSecretKey(id)
	case "distrib":
		sk = kg.GenSecretKeyWithDistrib(prob, id)
	case "gaussian":
		sk = kg.GenSecretKeyGaussian(id)
	case "sparse":
		sk = kg.GenSecretKeySparse(hw, id)
	}
	if sk.ID != id {
		c.Fatal("key-id", "%s: the secret key of %q carries the name %q", how, id, sk.ID)
	}
	s, ok, why := ReadSK(p, sk)
	if !ok {
		c.Fatal("secret-key", "%s: not one small polynomial modulo all primes: %s", how, why)
	}
	bound, w := int64(1), 0
	if how == "gaussian" {
		bound = int64(6 * p.Sigma())
	}
	for j, v := range s.Coef {
		if v != 0 {
			w++
		}
		if v > bound || v < -bound {
			c.Fatal("secret-key", "%s: coefficient %d is %d, the bound is %d", how, j, v, bound)
		}
	}
	if w == 0 && how != "sparse" && how != "pair-sparse" {
		if n >= 64 {
			c.Fatal("secret-key", "%s: the secret is zero", how)
		}
	}
	if (how == "sparse" || how == "pair-sparse") && w != hw {
		c.Fatal("secret-key", "%s: Hamming weight %d, asked for %d", how, w, hw)
	}
	return
}

func keySpec(c *Case) (s *Spec, p mkrlwe.Parameters, bp mkbfv.Parameters, isBFV bool) {
	logN := hugeN(c)
	switch {
	case logN != 0 && c.Coin(1, 2):
		s = bigBFVSpecN(c, 2, logN)
		bp, isBFV = NewBFVParams(s), true
		p = bp.Parameters
	case logN != 0:
		s = bigSpecN(c, c.Range(2, 4), logN)
		p = NewRLWEParams(s)
	case c.Index%bigEvery == 1:
		s = bigSpec(c, c.Range(4, 7))
		p = NewRLWEParams(s)
	case c.Index%bigEvery == 2:
		s = bigBFVSpec(c, c.Range(2, 4))
		bp, isBFV = NewBFVParams(s), true
		p = bp.Parameters
	case c.Coin(1, 3) || c.Index == 3:
		s = RandBFVSpec(c.Rng, BFVOpt{MinBits: 36, MaxLogN: 10})
		bp, isBFV = NewBFVParams(s), true
		p = bp.Parameters
	default:
		s = RandRLWESpec(c.Rng, 10, 10)
		if c.Coin(1, 3) {
			s.Sigma = Pick(c.Rng, 1.5, 2.0, 4.5, 8.0)
		}
		p = NewRLWEParams(s)
	}
	return
}

// ---------------------------------------------------------------- C13

func runC13(c *Case) {
	spec, p, bp, isBFV := keySpec(c)
	c.Logf("%v", spec)
	h := p.N() / 2
	k := newKeyCtx(c, p)
	// custom rotation indexes, before or between the key generations
	addCRS := func() {
		idx := c.Range(1, h-1)
		if c.Coin(1, 3) {
			idx -= h
		}
		if c.Coin(1, 6) {
			// the rotation by zero, under any of its names
			idx = Pick(c.Rng, 0, h, -h, 2*h)
		}
		norm := ((idx % h) + h) % h
		if _, in := p.CRS[norm]; !in || norm == 0 {
			snap := snapCRS(p)
			p.AddCRS(idx)
			if _, in := p.CRS[norm]; !in {
				c.Fatal("crs", "AddCRS(%d) made no CRS for that rotation", idx)
			}
			if d := crsChanged(snap, p); d != "" {
				c.Fatal("crs", "AddCRS(%d) changed another CRS: %s", idx, d)
			}
		}
	}
	for i := c.Intn(3); i > 0; i-- {
		addCRS()
	}
	kgs := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(p), mkrlwe.NewKeyGenerator(p)}
	var bkg *mkbfv.KeyGenerator
	if isBFV {
		bkg = mkbfv.NewKeyGenerator(bp)
	} else if c.Coin(1, 3) {
		kgs[0] = mkckks.NewKeyGenerator(ckksOf(spec, p))
	}
	var gq, gm [][]uint64
	if isBFV {
		gq, gm = bfvGadget(k, bp, false), bfvGadget(k, bp, true)
	}
	np := c.Range(1, 3)
	if spec.LogN > 12 {
		np = 1
	}
	var ps []*keyParty
	names := RandIDs(c.Rng, np)
	if c.Coin(1, 3) {
		// a party that starts over, with a new secret under its name
		names = append(names, names[0])
	}
	for _, id := range names {
		kg := Pick(c.Rng, kgs...)
		sk, pk, how := genSecret(c, p, kg, id)
		q := &keyParty{id: id, sk: sk, pk: pk}
		o, _, _ := ReadSK(p, sk)
		q.sInt = o.Coef
		q.s = k.qp.Small(o.Coef)
		q.r = kg.GenSecretKey(id)
		o, ok, why := ReadSK(p, q.r)
		if !ok {
			c.Fatal("secret-key", "GenSecretKey: not one small polynomial: %s", why)
		}
		q.rInt = o.Coef
		if pk != nil {
			k.publicKey(how+" public key of "+fmt.Sprintf("%q", id), pk, q.s)
			if pk.ID != id {
				c.Fatal("key-id", "public key of %q carries the name %q", id, pk.ID)
			}
		}
		c.Logf("party %q secret by %s", id, how)
		ps = append(ps, q)
		c.Eval("%s/secret-%s", spec.Shape(), how)
	}
	rounds := c.Range(4, 9)
	if spec.LogN > 12 {
		rounds = 4
	} else if spec.LogN <= 5 && c.Coin(1, 10) {
		rounds = c.Range(50, 120)
	}
	n2 := uint64(2 * p.N())
	common := mkrlwe.NewRotationKeySet()
	for i := 0; i < rounds; i++ {
		q := Pick(c.Rng, ps...)
		kg := Pick(c.Rng, kgs...)
		snapS, snapR, snapC := snapSK(q.sk), snapSK(q.r), snapCRS(p)
		what := Pick(c.Rng, "pk", "rlk", "rlk", "rot", "rot", "conj", "swk", "defaults")
		if spec.LogN > 12 {
			what = []string{"rlk", "rot", "conj", "pk"}[i%4]
		}
		name := fmt.Sprintf("%s of %q", what, q.id)
		switch what {
		case "pk":
			pk := kg.GenPublicKey(q.sk)
			if pk.ID != q.id {
				c.Fatal("key-id", "%s carries the name %q", name, pk.ID)
			}
			k.publicKey(name, pk, q.s)
		case "rlk":
			r := k.qp.Small(q.rInt)
			if isBFV && c.Coin(3, 4) {
				rlk := bkg.GenRelinearizationKey(q.sk, q.r)
				if rlk.ID != q.id {
					c.Fatal("key-id", "%s carries the name %q", name, rlk.ID)
				}
				a, b := rlk.Value[0], rlk.Value[1]
				k.equations("bfv-b1", name+" b1", k.swk(a.Value[0]), 0, q.s, gq, nil)
				k.equations("bfv-b2", name+" b2", k.swk(b.Value[0]), -3, q.s, gq, nil)
				k.equations("bfv-d1", name+" d1", k.swk(a.Value[1]), 0, r, gq, q.s)
				k.equations("bfv-d2", name+" d2", k.swk(b.Value[1]), -3, r, gm, q.s)
				k.equations("bfv-v", name+" v", k.swk(a.Value[2]), -1, q.s, negGadget(k), r)
			} else {
				rlk := kg.GenRelinearizationKey(q.sk, q.r)
				if rlk.ID != q.id {
					c.Fatal("key-id", "%s carries the name %q", name, rlk.ID)
				}
				k.equations("b", name+" b", k.swk(rlk.Value[0]), 0, q.s, k.gadget, nil)
				k.equations("d", name+" d", k.swk(rlk.Value[1]), 0, r, k.gadget, q.s)
				k.equations("v", name+" v", k.swk(rlk.Value[2]), -1, q.s, negGadget(k), r)
			}
		case "rot":
			if c.Coin(1, 4) {
				addCRS()
			}
			var idxs []int
			for idx := range p.CRS {
				if idx > 0 {
					idxs = append(idxs, idx)
				}
			}
			idx := pickSorted(c, idxs)
			arg := idx
			switch c.Intn(4) {
			case 0:
				arg -= h
			case 1:
				arg += h * c.Range(-3, 3)
			}
			rk := kg.GenRotationKey(arg, q.sk)
			k.rotKey(fmt.Sprintf("rotation key %d of %q", arg, q.id), rk, q, idx)
		case "defaults":
			// all the secrets of this name, one after the other into one set: each
			// time the set gets the keys of the secret given
			set := mkrlwe.NewRotationKeySet()
			if c.Coin(1, 2) {
				set = common
			}
			for _, o := range ps {
				if o.id != q.id {
					continue
				}
				kg.GenDefaultRotationKeys(o.sk, set)
				for idx := 1; idx < h; idx *= 2 {
					rk := set.GetRotationKey(q.id, uint(idx))
					k.rotKey(fmt.Sprintf("default rotation key %d of %q", idx, q.id), rk, o, idx)
				}
			}
		case "conj":
			ck := kg.GenConjugationKey(q.sk)
			if ck.ID != q.id {
				c.Fatal("key-id", "%s carries the name %q", name, ck.ID)
			}
			k.equations("conj", name, k.swk(ck.Value), -2, q.s, k.gadget, k.qp.Small(AutInt(q.sInt, n2-1)))
		case "swk":
			swk := mkrlwe.NewSwitchingKey(p)
			kg.GenSwitchingKey(q.sk, swk)
			k.equations("swk", name, k.swk(swk), 0, nil, k.gadget, q.s)
			if isBFV {
				s1, s2 := mkrlwe.NewSwitchingKey(p), mkrlwe.NewSwitchingKey(p)
				bkg.GenBFVSwitchingKey(q.sk, s1, s2)
				k.equations("bswk1", name+" bfv1", k.swk(s1), 0, nil, gq, q.s)
				k.equations("bswk2", name+" bfv2", k.swk(s2), 0, nil, gm, q.s)
			}
		}
		if d := diffLimbs(snapS, snapSK(q.sk)) + diffLimbs(snapR, snapSK(q.r)); d != "" {
			c.Fatal("input-changed", "generating %s changed a secret key: %s", name, d)
		}
		if d := crsChanged(snapC, p); d != "" {
			c.Fatal("input-changed", "generating %s changed the common reference string: %s", name, d)
		}
		c.Logf("%s verified", name)
		c.Eval("%s/g%d/%s/bfv%v", spec.Shape(), spec.Gamma, what, isBFV)
	}
	k.noteStats()
	if isBFV && c.Index == 3 {
		// the known finding, on parameters that always show it
		s := &Spec{Family: "bfv", LogN: 5, Sigma: 3.2, T: 193}
		used := map[uint64]bool{193: true}
		s.Q, s.QMul, s.P = NTTPrimes(c.Rng, 5, 50, 4, used), NTTPrimes(c.Rng, 5, 50, 4, used), NTTPrimes(c.Rng, 5, 51, 4, used)
		knownOddQ(c, s)
	} else if isBFV {
		knownOddQ(c, spec)
	}
}

func ckksOf(s *Spec, p mkrlwe.Parameters) mkckks.Parameters {
	cp, err := ckks.NewParameters(p.Parameters, s.LogSlots, s.Scale)
	if err != nil {
		panic(err)
	}
	x := mkckks.NewParameters(cp)
	x.Parameters = p
	return x
}

func (k *keyCtx) rotKey(where string, rk *mkrlwe.RotationKey, q *keyParty, idx int) {
	if rk.ID != q.id || rk.RotIdx != uint(idx) {
		k.c.Fatal("key-id", "%s carries the name %q and the index %d", where, rk.ID, rk.RotIdx)
	}
	n := k.p.N()
	inv := GaloisRot(n, n/2-idx)
	k.equations(fmt.Sprintf("rot%d", idx), where, k.swk(rk.Value), idx, k.qp.Small(AutInt(q.sInt, inv)), k.gadget, q.s)
}

// negGadget is -gadget: v = -su - rg + e.
func negGadget(k *keyCtx) (o [][]uint64) {
	for _, g := range k.gadget {
		n := make([]uint64, len(g))
		for i, v := range g {
			if v != 0 {
				n[i] = k.qp.Mod[i] - v
			}
		}
		o = append(o, n)
	}
	return
}

func pickSorted(c *Case, v []int) int {
	for i := range v {
		for j := i + 1; j < len(v); j++ {
			if v[j] < v[i] {
				v[i], v[j] = v[j], v[i]
			}
		}
	}
	return v[c.Intn(len(v))]
}

// knownOddQ exercises the known finding: BFV relinearization keys when the
// number of Q primes is not a multiple of alpha.
func knownOddQ(c *Case, s *Spec) {
	if len(s.P) < 4 {
		return
	}
	t := *s
	t.Q, t.QMul = append([]uint64{}, s.Q...), append([]uint64{}, s.QMul...)
	alpha := len(s.P) / 2
	if len(t.Q) <= 1 {
		return
	}
	t.Q, t.QMul = t.Q[:len(t.Q)-1], t.QMul[:len(t.QMul)-1]
	if len(t.Q)%alpha == 0 {
		return
	}
	bp := NewBFVParams(&t)
	kg := mkbfv.NewKeyGenerator(bp)
	sk, r := kg.GenSecretKey("a"), kg.GenSecretKey("a")
	did, val := Panics(func() { kg.GenRelinearizationKey(sk, r) })
	if did {
		c.Fail("bfv-partial-digit", "mkbfv relinearization key with %d primes in Q and alpha=%d: %v", len(t.Q), alpha, val)
	}
}

// ---------------------------------------------------------------- C14

func runC14(c *Case) {
	switch {
	case c.Index%3 == 0:
		masksCase(c)
	case c.Index%3 == 1:
		secretsCase(c)
	default:
		encryptionCase(c)
	}
}

type mask struct {
	where string
	v     Limbs
}

// masksCase: no two published samples hidden by the same secret share their mask (up to a constant).
func masksCase(c *Case) {
	spec, p, bp, isBFV := keySpec(c)
	c.Logf("%v", spec)
	h := p.N() / 2
	for i := c.Intn(4); i > 0; i-- {
		idx := c.Range(-h, h)
		if _, in := p.CRS[((idx%h)+h)%h]; !in || ((idx%h)+h)%h == 0 {
			p.AddCRS(idx)
		}
	}
	k := newKeyCtx(c, p)
	kg := mkrlwe.NewKeyGenerator(p)
	id := RandIDs(c.Rng, 1)[0]
	sk, pk := kg.GenKeyPair(id)
	o, _, _ := ReadSK(p, sk)
	q := &keyParty{id: id, sk: sk, s: k.qp.Small(o.Coef), sInt: o.Coef}
	q.r = kg.GenSecretKey(id)
	ro, _, _ := ReadSK(p, q.r)
	r := k.qp.Small(ro.Coef)
	k.publicKey("public key", pk, q.s)
	// more public keys of the same secret, from this and from other generators
	for i, m := 0, c.Range(1, 3); i < m; i++ {
		g := kg
		if c.Coin(1, 2) {
			g = mkrlwe.NewKeyGenerator(p)
		}
		k.publicKey(fmt.Sprintf("public key %d", i+2), g.GenPublicKey(sk), q.s)
	}
	// samples under the secret r of the relinearization keys
	rk := newKeyCtx(c, p)
	if isBFV {
		bkg := mkbfv.NewKeyGenerator(bp)
		rlk := bkg.GenRelinearizationKey(sk, q.r)
		gq, gm := bfvGadget(k, bp, false), bfvGadget(k, bp, true)
		rk.equations("d1", "d1", k.swk(rlk.Value[0].Value[1]), 0, r, gq, q.s)
		rk.equations("d2", "d2", k.swk(rlk.Value[1].Value[1]), -3, r, gm, q.s)
		k.equations("b1", "b1", k.swk(rlk.Value[0].Value[0]), 0, q.s, gq, nil)
		k.equations("b2", "b2", k.swk(rlk.Value[1].Value[0]), -3, q.s, gq, nil)
		k.equations("v", "v", k.swk(rlk.Value[0].Value[2]), -1, q.s, negGadget(k), r)
	} else {
		rlk := kg.GenRelinearizationKey(sk, q.r)
		rk.equations("d", "d", k.swk(rlk.Value[1]), 0, r, k.gadget, q.s)
		k.equations("b1", "b", k.swk(rlk.Value[0]), 0, q.s, k.gadget, nil)
		k.equations("v", "v", k.swk(rlk.Value[2]), -1, q.s, negGadget(k), r)
	}
	n := p.N()
	ck := kg.GenConjugationKey(sk)
	k.equations("conj", "conj", k.swk(ck.Value), -2, q.s, k.gadget, k.qp.Small(AutInt(q.sInt, uint64(2*n-1))))
	var idxs []int
	for idx := range p.CRS {
		if idx > 0 {
			idxs = append(idxs, idx)
		}
	}
	if p.N() > 4096 && len(idxs) > 3 {
		pickSorted(c, idxs)
		idxs = idxs[len(idxs)-3:]
	}
	for i := c.Intn(3); i > 0; i-- { // indexes outside of ]0,N/2[
		idx := c.Range(1, h-1)
		if _, in := p.CRS[idx]; in {
			idxs = append(idxs, Pick(c.Rng, idx-h, idx+h, idx-2*h, farRot(c, idx)))
		}
	}
	zero := []int{0, h, -h, 2 * h}
	for _, idx := range append(idxs, zero...) {
		var rk *mkrlwe.RotationKey
		e := ((idx % h) + h) % h
		did, val := Panics(func() { rk = kg.GenRotationKey(idx, sk) })
		if did {
			if e != 0 {
				c.Fatal("panic", "GenRotationKey(%d): %v", idx, val)
			}
			c.Eval("rotation by %d refused", Pick(c.Rng, zero...))
			continue
		}
		inv := GaloisRot(n, h-e)
		kind := fmt.Sprintf("rot%d", e)
		_, again := k.masks[kind]
		k.equations(kind, fmt.Sprintf("rotation key %d", idx), k.swk(rk.Value), e, k.qp.Small(AutInt(q.sInt, inv)), k.gadget, q.s)
		if again {
			continue
		}
		// rk_i + mask*sigma^-1(s) = ...: as a sample of s, its mask is sigma(mask)
		g := GaloisRot(n, e)
		for i, m := range k.masks[kind] {
			k.masks[kind][i] = autLimb0(k, m, g)
		}
	}
	var all []mask
	for kind, ms := range k.masks {
		for i, m := range ms {
			all = append(all, mask{fmt.Sprintf("%s[%d]", kind, i), m})
		}
	}
	// the errors under r and under s are independent too
	for i, e := range rk.pk {
		k.note("d", fmt.Sprintf("element %d of the key's part under r", i), e)
	}
	k.noteStats()
	for kind, ms := range rk.masks {
		for i := range ms {
			for other, mo := range rk.masks {
				for j := range mo {
					if (kind < other || kind == other && i < j) && k.qp.Proportional(ms[i], mo[j]) {
						c.Fatal("shared-mask", "the samples %s[%d] and %s[%d] under the secret r are masked by (a multiple of) the same polynomial", kind, i, other, j)
					}
				}
			}
		}
	}
	for i := range all {
		for j := range all[:i] {
			// every public key of a party has the mask of its CRS: regenerating a key of the same kind is not judged
			if strings.HasPrefix(all[i].where, "pk") && strings.HasPrefix(all[j].where, "pk") {
				continue
			}
			if k.qp.Proportional(all[i].v, all[j].v) {
				c.Fatal("shared-mask", "the samples %s and %s of one secret are masked by (a multiple of) the same polynomial: combining them removes the mask and reveals the secret", all[i].where, all[j].where)
			}
		}
		c.Eval("mask/%s/%s", spec.Shape(), all[i].where)
	}
	// the whole common reference string: uniform, no repetition
	crsQuality(c, p, spec)
	// a second set of parameters has its own
	p2 := NewRLWEParams(spec)
	for idx, v := range p.CRS {
		if w := p2.CRS[idx]; w != nil && diffLimbs(v.Value[0].Q.Coeffs[:1], w.Value[0].Q.Coeffs[:1]) == "" {
			c.Fatal("crs", "CRS[%d] of two parameter sets is the same", idx)
		}
	}
}

func autLimb0(k *keyCtx, m Limbs, g uint64) Limbs {
	r := k.p.RingQ()
	p := r.NewPolyLvl(0)
	copy(p.Coeffs[0], m[0])
	r.InvNTTLvl(0, p, p)
	p = Automorphism(r, 0, p, g)
	r.NTTLvl(0, p, p)
	return Limbs{p.Coeffs[0]}
}

func crsQuality(c *Case, p mkrlwe.Parameters, spec *Spec) {
	seen := map[[3]uint64]string{}
	mods := append(append([]uint64{}, p.RingQ().Modulus...), p.RingP().Modulus...)
	for idx, v := range p.CRS {
		if len(v.Value) != p.Beta(p.MaxLevel()) {
			c.Fatal("crs", "CRS[%d] has %d elements instead of %d", idx, len(v.Value), p.Beta(p.MaxLevel()))
		}
		for i, x := range v.Value {
			for l, cf := range append(append([][]uint64{}, x.Q.Coeffs...), x.P.Coeffs...) {
				var s float64
				for j, y := range cf {
					if y >= mods[l] {
						c.Fatal("crs", "CRS[%d][%d]: coefficient %d of limb %d is %d, not below its modulus %d", idx, i, j, l, y, mods[l])
					}
					s += float64(y) / float64(mods[l])
				}
				n := float64(len(cf))
				if d := math.Abs(s/n - 0.5); d > 9*math.Sqrt(1/(12*n)) {
					c.Fatal("crs", "CRS[%d][%d] limb %d: mean %g of the modulus, not uniform", idx, i, l, s/n)
				}
				where := fmt.Sprintf("CRS[%d][%d] limb %d", idx, i, l)
				key := [3]uint64{0, cf[0], cf[1]}
				if w, in := seen[key]; in {
					c.Fatal("crs", "%s repeats %s", where, w)
				}
				seen[key] = where
				// a constant multiple of another one, modulo the same prime
				if cf[0] != 0 {
					inv := InvMod(cf[0], mods[l])
					key = [3]uint64{mods[l], MulMod(cf[1], inv, mods[l]), MulMod(cf[2], inv, mods[l])}
					if w, in := seen[key]; in {
						c.Fatal("crs", "%s is a multiple of %s", where, w)
					}
					seen[key] = where
				}
			}
		}
	}
	c.Eval("crs/%s", spec.Shape())
}

// secretsCase: secrets are fresh and have the distribution asked for.
func secretsCase(c *Case) {
	spec := RandRLWESpec(c.Rng, 9, 4)
	if c.Coin(1, 2) {
		s := &Spec{Family: "flat", LogN: c.Range(10, 12), Sigma: 3.2, Gamma: 2}
		used := map[uint64]bool{}
		s.Q = NTTPrimes(c.Rng, s.LogN, 40, c.Range(1, 2), used)
		s.P = NTTPrimes(c.Rng, s.LogN, 40, 2, used)
		spec = s
	}
	p := NewRLWEParams(spec)
	c.Logf("%v", spec)
	n := float64(p.N())
	kgs := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(p), mkrlwe.NewKeyGenerator(p)}
	seen := map[string]string{}
	type cl struct{ pos, neg, tot, sq float64 }
	cls := map[string]*cl{}
	prob := 0.1 + 0.8*c.Float64()
	hw := c.Range(maxi(1, p.N()/8), p.N()/2)
	var vecs [][]int64
	twin, gwin := newWindows(1.415), newWindows(math.Log2(math.Max(1.2, 2*p.Sigma()*math.Sqrt(math.Pi))))
	for i := 0; i < c.Range(4, 8); i++ {
		id := Pick(c.Rng, "a", "b", "c")
		kg := kgs[i%2]
		how := Pick(c.Rng, "default", "pair", "distrib", "gaussian", "sparse", "pair-sparse")
		var sk *mkrlwe.SecretKey
		switch how {
		case "default":
			sk = kg.GenSecretKey(id)
		case "pair":
			sk, _ = kg.GenKeyPair(id)
		case "distrib":
			sk = kg.GenSecretKeyWithDistrib(prob, id)
		case "gaussian":
			sk = kg.GenSecretKeyGaussian(id)
		case "sparse":
			sk = kg.GenSecretKeySparse(hw, id)
		case "pair-sparse":
			sk, _ = kg.GenKeyPairSparse(hw, id)
		}
		s, ok, why := ReadSK(p, sk)
		if !ok {
			c.Fatal("secret-key", "%s: %s", how, why)
		}
		bound, w := int64(1), 0
		if how == "gaussian" {
			bound = int64(6 * p.Sigma())
		}
		for j, v := range s.Coef {
			if v != 0 {
				w++
			}
			if v > bound || v < -bound {
				c.Fatal("secret-distribution", "%s: coefficient %d is %d, the bound is %d", how, j, v, bound)
			}
		}
		if strings.Contains(how, "sparse") && w != hw {
			c.Fatal("secret-distribution", "%s: Hamming weight %d, asked for %d", how, w, hw)
		}
		// the non-zero coefficients are spread evenly over the polynomial
		for _, half := range []int{p.N() / 2, p.N() / 4} {
			var a, b float64
			for j, v := range s.Coef {
				if v != 0 {
					if j/half%2 == 0 {
						a++
					} else {
						b++
					}
				}
			}
			if math.Abs(a-b) > 9*math.Sqrt(a+b)+2 {
				c.Fatal("secret-distribution", "%s: %g of the non-zero coefficients are in the first and %g in the second part of the polynomial (blocks of %d)", how, a, b, half)
			}
		}
		key := fmt.Sprint(s.Coef)
		if w, in := seen[key]; in && n >= 64 {
			c.Fatal("secret-reused", "secret number %d (%s) equals the %s", i, how, w)
		}
		seen[key] = fmt.Sprintf("secret number %d (%s)", i, how)
		vecs = append(vecs, s.Coef)
		win := twin
		if how == "gaussian" {
			win = gwin
		}
		if how == "default" || how == "pair" || how == "gaussian" {
			if d := win.note(seen[key], s.Coef); d != "" {
				c.Fatal("secret-reused", "%s", d)
			}
		}
		if cls[how] == nil {
			cls[how] = &cl{}
		}
		for _, v := range s.Coef {
			t := cls[how]
			t.tot++
			t.sq += float64(v * v)
			if v > 0 {
				t.pos++
			} else if v < 0 {
				t.neg++
			}
		}
		c.Eval("%s/%s", spec.Shape(), how)
	}
	// independence: the correlation of two secrets
	for i := range vecs {
		for j := range vecs[:i] {
			var xy, xx, yy float64
			for l := range vecs[i] {
				a, b := float64(vecs[i][l]), float64(vecs[j][l])
				xy, xx, yy = xy+a*b, xx+a*a, yy+b*b
			}
			if xx > 30 && yy > 30 {
				r := math.Abs(xy) / math.Sqrt(xx*yy)
				c.Stat("secret-correlation*sqrt(n)", r*math.Sqrt(n))
				if r > 9/math.Sqrt(n) && n >= 256 {
					c.Fatal("secret-reused", "secrets %d and %d are correlated: %g (n=%g)", j, i, r, n)
				}
			}
		}
	}
	for how, t := range cls {
		if t.tot < 256 {
			continue
		}
		sd := 9 * math.Sqrt(0.25/t.tot)
		if d := math.Abs(t.pos-t.neg) / t.tot; d > 2*sd+0.01 {
			c.Fatal("secret-distribution", "%s: %g positive and %g negative coefficients of %g", how, t.pos, t.neg, t.tot)
		}
		nz := (t.pos + t.neg) / t.tot
		switch how {
		case "default", "pair":
			// 1/2 (what the code draws) and 2/3 (what its comment says) both satisfy this
			if nz < 0.5-sd || nz > 2.0/3+sd {
				c.Fatal("secret-distribution", "%s: a fraction %g of non-zero coefficients", how, nz)
			}
		case "distrib":
			// p is the probability of zero
			if math.Abs(nz-(1-prob)) > sd+0.005 {
				c.Fatal("secret-distribution", "%s(%g): a fraction %g of non-zero coefficients", how, prob, nz)
			}
		case "gaussian":
			want := spec.Sigma*spec.Sigma + 1.0/12
			if math.Abs(t.sq/t.tot-want) > want*(0.03+9*math.Sqrt(2/t.tot)) {
				c.Fatal("secret-distribution", "gaussian: variance %g, expected %g", t.sq/t.tot, want)
			}
		}
	}
}

// encryptionCase: with a public key of known constants (K0, K1), a ciphertext is
// (K0 u + e0 + m, K1 u + e1), so that the randomness of the encryption can be read from it.
func encryptionCase(c *Case) {
	rounds := c.Range(3, 7)
	long := c.Coin(1, 8)
	spec := RandRLWESpec(c.Rng, 10, 4)
	var p mkrlwe.Parameters
	var bp mkbfv.Parameters
	isBFV := c.Coin(1, 3)
	if isBFV {
		o := BFVOpt{MinBits: 36, MaxLogN: Pick(c.Rng, 6, 10)}
		if c.Coin(1, 6) {
			o.MinLogN, o.MaxLogN, o.MaxQ, rounds = 11, 13, 2, 3
		}
		spec = RandBFVSpec(c.Rng, o)
	} else if long {
		rounds = c.Range(100, 300)
		spec.LogN = c.Range(4, 6)
		used := map[uint64]bool{}
		spec.Q = NTTPrimes(c.Rng, spec.LogN, 45, c.Range(1, 3), used)
		spec.P = NTTPrimes(c.Rng, spec.LogN, 46, 2, used)
		spec.Gamma, spec.LogSlots = 2, mini(spec.LogSlots, spec.LogN-1)
	} else if c.Coin(1, 3) {
		spec.LogN = maxi(spec.LogN, 9)
		if c.Coin(1, 3) {
			spec.LogN, rounds = c.Range(11, 14), c.Range(3, 4)
		}
		used := map[uint64]bool{}
		spec.Q = NTTPrimes(c.Rng, spec.LogN, 45, c.Range(1, 3), used)
		spec.P = NTTPrimes(c.Rng, spec.LogN, 46, 2, used)
		spec.Gamma = 2
	}
	if isBFV {
		bp = NewBFVParams(spec)
		p = bp.Parameters
		if long && p.N() <= 64 {
			rounds = c.Range(100, 200)
		}
	} else {
		p = NewRLWEParams(spec)
	}
	c.Logf("%v", spec)
	k := newKeyCtx(c, p)
	R := p.RingQ()
	n := p.N()
	mkpk := func(id string, k0, k1 int64) *mkrlwe.PublicKey {
		pk := mkrlwe.NewPublicKey(p, id)
		for t, v := range []int64{k0, k1} {
			cst := make([]int64, n)
			cst[0] = v
			q := SmallPoly(R, cst)
			R.NTT(q, q)
			pk.Value[t].Q.Copy(q)
		}
		return pk
	}
	// two parties, and the first again with a new key
	ids := RandIDs(c.Rng, 2)
	ids = append(ids, ids[0])
	var pks []*mkrlwe.PublicKey
	var ks [][2]int64
	for i, id := range ids {
		ks = append(ks, [2]int64{int64(c.Range(200, 4000)), int64(c.Range(200, 4000))})
		pks = append(pks, mkpk(id, ks[i][0], ks[i][1]))
	}
	encs := []*mkrlwe.Encryptor{mkrlwe.NewEncryptor(p), mkrlwe.NewEncryptor(p)}
	var cencs []*mkckks.Encryptor
	var bencs []*mkbfv.Encryptor
	var cpar mkckks.Parameters
	var ccp ckks.Parameters
	var bcp bfv.Parameters
	var cmsg *mkckks.Message
	var bmsg *mkbfv.Message
	switch {
	case isBFV:
		bencs = []*mkbfv.Encryptor{mkbfv.NewEncryptor(bp), mkbfv.NewEncryptor(bp)}
		bcp, _ = bfv.NewParameters(p.Parameters, bp.T())
	case spec.Scale > 1 && c.Coin(3, 4):
		cpar = ckksOf(spec, p)
		ccp, _ = ckks.NewParameters(p.Parameters, cpar.LogSlots(), cpar.Scale())
		cencs = []*mkckks.Encryptor{mkckks.NewEncryptor(cpar), mkckks.NewEncryptor(cpar)}
	}
	us := map[string]bool{}
	uwin := newWindows(1.415)
	var prev [][]int64
	var upos, uneg, utot float64
	for i := 0; i < rounds; i++ {
		level := c.Range(0, p.MaxLevel())
		ntt, pntt := c.Coin(1, 2), c.Coin(1, 2)
		w := c.Intn(len(pks))
		id, pk, k0, k1 := ids[w], pks[w], ks[w][0], ks[w][1]
		g := c.Intn(2)
		entry := "generic"
		if cencs != nil {
			entry = Pick(c.Rng, "generic", "ckks-ptxt", "ckks-msg", "ckks-new")
		} else if bencs != nil {
			entry = Pick(c.Rng, "generic", "bfv-ptxt", "bfv-msg", "bfv-new")
			level = p.MaxLevel()
		}
		pt := rlwe.NewPlaintext(p.Parameters, level)
		for l := range pt.Value.Coeffs {
			for j := range pt.Value.Coeffs[l] {
				pt.Value.Coeffs[l][j] = c.Uint64() % R.Modulus[l]
			}
		}
		pt.Value.IsNTT = pntt
		ct := mkrlwe.NewCiphertext(p, NewIDs(id), level)
		if ntt {
			ct = mkrlwe.NewCiphertextNTT(p, NewIDs(id), level)
		}
		switch entry {
		case "generic":
			encs[g].Encrypt(pt, pk, ct)
		case "ckks-ptxt":
			cencs[g].EncryptPtxt(&ckks.Plaintext{Plaintext: pt, Scale: 1}, pk, &mkckks.Ciphertext{Ciphertext: ct, Scale: 1})
		case "ckks-msg", "ckks-new":
			// the same message several times, so that only the randomness differs
			if cmsg == nil || c.Coin(1, 3) {
				cmsg = mkckks.NewMessage(cpar)
				for j := range cmsg.Value {
					cmsg.Value[j] = complex(c.Float64()-0.5, c.Float64()-0.5)
				}
			}
			if entry == "ckks-msg" {
				cencs[g].EncryptMsg(cmsg, pk, &mkckks.Ciphertext{Ciphertext: ct, Scale: 1})
			} else {
				ct = cencs[g].EncryptMsgNew(cmsg, pk).Ciphertext
				level = p.MaxLevel()
			}
			cpt := ckks.NewPlaintext(ccp, p.MaxLevel(), cpar.Scale())
			ckks.NewEncoder(ccp).Encode(cpt, cmsg.Value, cpar.LogSlots())
			pt = cpt.Plaintext
		case "bfv-ptxt":
			bencs[g].EncryptPtxt(&bfv.Plaintext{Plaintext: pt}, pk, &mkbfv.Ciphertext{Ciphertext: ct})
		case "bfv-msg", "bfv-new":
			if bmsg == nil || c.Coin(1, 3) {
				bmsg = mkbfv.NewMessage(bp)
				for j := range bmsg.Value {
					bmsg.Value[j] = int64(c.Uint64() % (bp.T() / 2))
				}
			}
			if entry == "bfv-msg" {
				bencs[g].EncryptMsg(bmsg, pk, &mkbfv.Ciphertext{Ciphertext: ct})
			} else {
				ct = bencs[g].EncryptMsgNew(bmsg, pk).Ciphertext
			}
			bpt := bfv.NewPlaintext(bcp)
			bfv.NewEncoder(bcp).EncodeInt(bmsg.Value, bpt)
			pt = bpt.Plaintext
		}
		c0 := SubPoly(R, level, CoeffPoly(R, level, ct.Value["0"]), CoeffPoly(R, level, pt.Value))
		c1 := CoeffPoly(R, level, ct.Value[id])
		v0, v1 := BigCoeffs(R, level, c0), BigCoeffs(R, level, c1)
		u, e0, e1 := make([]int64, n), make([]int64, n), make([]int64, n)
		for j := 0; j < n; j++ {
			if !v0[j].IsInt64() || !v1[j].IsInt64() {
				c.Fatal("encryption", "%s: the ciphertext is not (K0 u + e0 + m, K1 u + e1)", entry)
			}
			x, y := v0[j].Int64(), v1[j].Int64()
			u[j] = int64(math.Round(float64(y) / float64(k1)))
			e1[j] = y - u[j]*k1
			e0[j] = x - u[j]*k0
			if u[j] < -1 || u[j] > 1 || abs64(e1[j]) > k.bound || abs64(e0[j]) > k.bound {
				c.Fatal("encryption", "%s, coefficient %d: u=%d e0=%d e1=%d (ntt %v, plaintext ntt %v): the ephemeral secret must be ternary and the errors at most %d", entry, j, u[j], e0[j], e1[j], ntt, pntt, k.bound)
			}
			utot++
			if u[j] > 0 {
				upos++
			} else if u[j] < 0 {
				uneg++
			}
		}
		if us[fmt.Sprint(u)] && n >= 64 {
			c.Fatal("encryption", "%s: two encryptions use the same ephemeral secret", entry)
		}
		us[fmt.Sprint(u)] = true
		if d := uwin.note(fmt.Sprintf("the ephemeral secret of encryption %d", i), u); d != "" {
			c.Fatal("encryption", "%s", d)
		}
		// two independent ternary polynomials agree in at most 3/8 of the coefficients
		lim := 0.38*float64(n) + 9*math.Sqrt(0.24*float64(n)) + 4
		for t, o := range prev {
			var eq, ne float64
			for j := range o {
				if u[j] == o[j] {
					eq++
				}
				if u[j] == -o[j] {
					ne++
				}
			}
			if eq > lim || ne > lim {
				c.Fatal("encryption", "%s: the ephemeral secret of encryption %d and an earlier one (%d) agree in %g and are opposite in %g of %d coefficients", entry, i, t, eq, ne, n)
			}
		}
		if len(prev) < 24 {
			prev = append(prev, u)
		} else {
			copy(prev[8:], prev[9:])
			prev[23] = u
		}
		k.note("e0", fmt.Sprintf("e0 of encryption %d", i), e0)
		k.note("e1", fmt.Sprintf("e1 of encryption %d", i), e1)
		if i < 20 {
			c.Logf("encryption (%s) at level %d, ntt %v, plaintext ntt %v", entry, level, ntt, pntt)
		}
		c.Eval("enc/%s/%s/lvl%d/%v%v", spec.Shape(), entry, level, ntt, pntt)
	}
	k.noteStats()
	if utot >= 512 {
		sd := 9 * math.Sqrt(0.25/utot)
		if math.Abs(upos-uneg)/utot > 2*sd+0.01 || (upos+uneg)/utot < 0.5-sd || (upos+uneg)/utot > 2.0/3+sd {
			c.Fatal("encryption", "ephemeral secrets: %g positive, %g negative of %g", upos, uneg, utot)
		}
	}
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func init() {
	Register(&Prop{ID: "C13", Quick: 1200, Thorough: 24000, MinEvals: 500, Run: runC13,
		Rule:        "one evaluation = one key generated through a random entry point, its defining equation verified on every element modulo every prime of Q and P; distinct = (parameter shape, kind of key)",
		Assumptions: []string{"the secrets are read from the SecretKey objects", "known finding: BFV with a number of Q primes that is not a multiple of alpha"}})
	Register(&Prop{ID: "C14", Quick: 4000, Thorough: 80000, MinEvals: 600, Run: runC14,
		Rule:        "one evaluation = one mask compared with all the others of its owner, one secret drawn and compared, or one encryption whose ephemeral values were recovered; distinct = (parameter shape, sample or entry point, level, domain)",
		Assumptions: []string{"masks are attributed to keys through the verified key equations", "statistical tests at 9 standard deviations"}})
}
