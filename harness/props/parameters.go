package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"
	. "verif/harness/core"
)

// C25: parameters are the requested ones, their rings compute in the requested
// moduli, and the common reference string is uniform, shared and permanent.

func runC25(c *Case) {
	switch {
	case c.Index%12 == 11:
		callersLists(c)
	case c.Index%6 == 5:
		refusedParams(c)
	case c.Index%3 == 0:
		s := bspecFor(c, c.Index == 3, BFVOpt{MaxQ: 8})
		p := NewBFVParams(s)
		c.Logf("%v", s)
		bfvParamsCase(c, s, p)
		crsCase(c, s, p.Parameters, &p, func() mkrlwe.Parameters { return NewBFVParams(s).Parameters })
	case c.Index%3 == 1:
		s := specFor(c, c.Index == 1)
		p := NewCKKSParams(s)
		c.Logf("%v", s)
		k := &CKKS{C: c, Spec: s, P: p}
		k.CheckParams()
		if p.Gamma() != 2 {
			c.Fatal("parameters", "gamma %d instead of 2", p.Gamma())
		}
		ringsCase(c, s, p.Parameters)
		crsCase(c, s, p.Parameters, nil, func() mkrlwe.Parameters { return NewCKKSParams(s).Parameters })
	default:
		s := RandRLWESpec(c.Rng, 10, 12)
		p := NewRLWEParams(s)
		c.Logf("%v gamma=%d", s, s.Gamma)
		CheckRLWE(c, s, p)
		ringsCase(c, s, p)
		crsCase(c, s, p, nil, func() mkrlwe.Parameters { return NewRLWEParams(s) })
	}
}

// callersLists: the lists of primes are the caller's. Making parameters changes neither
// them nor what lies behind them in their arrays, and later changes of the caller's
// do not reach the parameters.
func callersLists(c *Case) {
	isBFV := c.Coin(2, 3)
	var s *Spec
	if isBFV {
		s = RandBFVSpec(c.Rng, BFVOpt{MaxQ: 6, MaxLogN: 9})
	} else {
		s = RandRLWESpec(c.Rng, 9, 8)
	}
	c.Logf("%v", s)
	lists := [][]uint64{s.Q, s.QMul, s.P}
	// one array for all of them, in any order, with the rest filled with marks
	spare := c.Range(0, 20)
	var arr, want []uint64
	at := make([]int, 3)
	for _, i := range c.Perm(3) {
		at[i] = len(arr)
		arr = append(arr, lists[i]...)
		for j := 0; j < spare; j++ {
			arr = append(arr, 0xdead0000+uint64(len(arr)))
		}
	}
	want = append(want, arr...)
	sl := func(i int) []uint64 { return arr[at[i] : at[i]+len(lists[i])] }
	t := *s
	t.Q, t.QMul, t.P = sl(0), sl(1), sl(2)
	var p mkrlwe.Parameters
	var bp mkbfv.Parameters
	if isBFV {
		bp = NewBFVParams(&t)
		p = bp.Parameters
	} else {
		p = NewRLWEParams(&t)
	}
	same := func(when string) {
		for i := range arr {
			if arr[i] != want[i] {
				c.Fatal("callers-lists", "%s: entry %d of the caller's array (Q at %d, QMul at %d, P at %d, %d unused entries after each) was %d and is %d", when, i, at[0], at[1], at[2], spare, want[i], arr[i])
			}
		}
	}
	same("making parameters")
	if c.Coin(1, 2) {
		// the caller uses the array for something else
		for i := range arr {
			arr[i] = c.Uint64()
		}
		want = append(want[:0], arr...)
	}
	if isBFV {
		bfvParamsCase(c, s, bp)
		crsCase(c, s, p, &bp, func() mkrlwe.Parameters { return NewBFVParams(s).Parameters })
	} else {
		CheckRLWE(c, s, p)
		ringsCase(c, s, p)
		crsCase(c, s, p, nil, func() mkrlwe.Parameters { return NewRLWEParams(s) })
	}
	same("using the parameters")
	c.Eval("lists/%s/spare%v/bfv%v", s.Shape(), spare > 0, isBFV)
}

// refusedParams: requests that make no sense are refused.
func refusedParams(c *Case) {
	s := RandBFVSpec(c.Rng, BFVOpt{MinQ: 2, MaxQ: 6, MaxLogN: 9})
	c.Logf("%v", s)
	used := map[uint64]bool{}
	for _, l := range [][]uint64{s.Q, s.QMul, s.P} {
		for _, q := range l {
			used[q] = true
		}
	}
	set := func(f func(l *mkbfv.ParametersLiteral)) mkbfv.ParametersLiteral {
		l := mkbfv.ParametersLiteral{LogN: s.LogN, Q: append([]uint64{}, s.Q...), QMul: append([]uint64{}, s.QMul...), P: append([]uint64{}, s.P...), Sigma: s.Sigma, T: s.T}
		f(&l)
		return l
	}
	n := len(s.Q)
	i := c.Intn(n)
	for _, x := range []struct {
		what string
		l    mkbfv.ParametersLiteral
	}{
		{"fewer lifting primes than primes", set(func(l *mkbfv.ParametersLiteral) { l.QMul = l.QMul[:c.Range(0, n-1)] })},
		{"more lifting primes than primes", set(func(l *mkbfv.ParametersLiteral) { l.Q = l.Q[:c.Range(0, n-1)] })},
		{"lifting primes equal to the primes", set(func(l *mkbfv.ParametersLiteral) { l.QMul = append([]uint64{}, l.Q...) })},
		{"one lifting prime equal to a prime", set(func(l *mkbfv.ParametersLiteral) { l.QMul[i] = l.Q[c.Intn(n)] })},
		{"a repeated prime", set(func(l *mkbfv.ParametersLiteral) { l.Q[i] = l.Q[(i+1)%n] })},
		{"a repeated lifting prime", set(func(l *mkbfv.ParametersLiteral) { l.QMul[i] = l.QMul[(i+1)%n] })},
		{"an even modulus", set(func(l *mkbfv.ParametersLiteral) { l.Q[i]++ })},
		{"an even lifting modulus", set(func(l *mkbfv.ParametersLiteral) { l.QMul[i]++ })},
		{"an even special modulus", set(func(l *mkbfv.ParametersLiteral) { l.P[c.Intn(len(l.P))]++ })},
		{"a plaintext modulus that is a power of two", set(func(l *mkbfv.ParametersLiteral) { l.T = 1 << uint(s.LogN) })},
		{"a plaintext modulus without the roots of unity", set(func(l *mkbfv.ParametersLiteral) { l.T += 1 << uint(s.LogN) })},
		{"no special primes", set(func(l *mkbfv.ParametersLiteral) { l.P = nil })},
		{"fewer special primes than gamma", set(func(l *mkbfv.ParametersLiteral) { l.P = l.P[:1] })},
		{"no primes", set(func(l *mkbfv.ParametersLiteral) { l.Q, l.QMul = nil, nil })},
	} {
		var p mkbfv.Parameters
		if did, _ := Panics(func() { p = mkbfv.NewParametersFromLiteral(x.l) }); !did {
			c.Fatal("accepted", "parameters with %s were accepted: %+v gives %d CRS", x.what, x.l, len(p.CRS))
		}
		c.Eval("refused/%s/nq%d", x.what, n)
	}
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, Sigma: s.Sigma})
	if err != nil {
		panic(err)
	}
	for _, g := range []int{0, len(s.P) + 1, 2*len(s.P) + 1} {
		if did, _ := Panics(func() { mkrlwe.NewParameters(rp, g) }); !did {
			c.Fatal("accepted", "parameters with %d special primes and gamma %d were accepted", len(s.P), g)
		}
		c.Eval("refused/gamma%d/np%d", g, len(s.P))
	}
	// the valid request next to them is served
	p := mkbfv.NewParametersFromLiteral(set(func(*mkbfv.ParametersLiteral) {}))
	(&BFV{C: c, Spec: s, P: p}).CheckParams()
}

func bfvParamsCase(c *Case, s *Spec, p mkbfv.Parameters) {
	k := &BFV{C: c, Spec: s, P: p}
	k.CheckParams()
	if p.Gamma() != 2 {
		c.Fatal("parameters", "gamma %d instead of 2", p.Gamma())
	}
	ringsCase(c, s, p.Parameters)
	r := append(append([]uint64{}, s.Q...), s.QMul...)
	for _, x := range []struct {
		what string
		r    *ring.Ring
		mod  []uint64
	}{
		{"RingT", p.RingT(), []uint64{s.T}},
		{"RingQMul", p.RingQMul(), s.QMul},
		{"RingQMulP, Q", p.RingQMulP().RingQ, s.QMul},
		{"RingQMulP, P", p.RingQMulP().RingP, s.P},
		{"RingR", p.RingR(), r},
		{"RingRP, Q", p.RingRP().RingQ, r},
		{"RingRP, P", p.RingRP().RingP, s.P},
	} {
		checkRing(c, s, x.what, x.r, x.mod)
	}
}

// ringsCase judges the rings and the gadget of parameters.
func ringsCase(c *Case, s *Spec, p mkrlwe.Parameters) {
	for _, x := range []struct {
		what string
		r    *ring.Ring
		mod  []uint64
	}{
		{"RingQ", p.RingQ(), s.Q}, {"RingP", p.RingP(), s.P}, {"RingQP, Q", p.RingQP().RingQ, s.Q}, {"RingQP, P", p.RingQP().RingP, s.P},
	} {
		checkRing(c, s, x.what, x.r, x.mod)
	}
	alpha := len(s.P) / p.Gamma()
	if p.Alpha() != alpha {
		c.Fatal("gadget", "digits of %d primes instead of %d (%d special primes, gamma %d)", p.Alpha(), alpha, len(s.P), p.Gamma())
	}
	for l := 0; l < len(s.Q); l++ {
		if want := (l + alpha) / alpha; p.Beta(l) != want {
			c.Fatal("gadget", "%d digits at level %d instead of %d", p.Beta(l), l, want)
		}
	}
	c.Eval("gadget/%s/gamma%d/alpha%d/nq%d", s.Shape(), p.Gamma(), alpha, len(s.Q))
}

// checkRing: a ring has the moduli asked for, in their order, and multiplies polynomials modulo them.
func checkRing(c *Case, s *Spec, what string, r *ring.Ring, mod []uint64) {
	n := 1 << uint(s.LogN)
	if r.N != n || len(r.Modulus) != len(mod) {
		c.Fatal("parameters", "%s: degree %d with %d moduli instead of %d with %d", what, r.N, len(r.Modulus), n, len(mod))
	}
	for i := range mod {
		if r.Modulus[i] != mod[i] {
			c.Fatal("parameters", "%s: modulus %d is %d instead of %d", what, i, r.Modulus[i], mod[i])
		}
	}
	// a dense polynomial times one with three terms
	a, b := r.NewPoly(), r.NewPoly()
	pos := []int{0, c.Intn(n), n - 1}
	for i, q := range mod {
		for j := range a.Coeffs[i] {
			a.Coeffs[i][j] = c.Uint64() % q
		}
		for _, j := range pos {
			b.Coeffs[i][j] = c.Uint64() % q
		}
	}
	got := MulPoly(r, len(mod)-1, a, b)
	for i, q := range mod {
		want := make([]uint64, n)
		for j := 0; j < n; j++ {
			if b.Coeffs[i][j] == 0 {
				continue
			}
			for k := 0; k < n; k++ {
				v := MulMod(a.Coeffs[i][k], b.Coeffs[i][j], q)
				if at := j + k; at < n {
					want[at] = (want[at] + v) % q
				} else {
					want[at-n] = (want[at-n] + q - v) % q
				}
			}
		}
		for j := range want {
			if got.Coeffs[i][j]%q != want[j] {
				c.Fatal("ring", "%s: coefficient %d of a product is %d modulo %d, expected %d", what, j, got.Coeffs[i][j], q, want[j])
			}
		}
	}
	c.Eval("ring/%s/%s/%d", what, s.Shape(), len(mod))
}

// crsCase judges the common reference string over a life of the parameters.
func crsCase(c *Case, s *Spec, p mkrlwe.Parameters, bp *mkbfv.Parameters, again func() mkrlwe.Parameters) {
	h := p.N() / 2
	crsUniform(c, p, s)
	crsQuality(c, p, s)
	before := snapCRS(p)
	// copies made now, objects made now: they must know strings added later
	cp := p
	kg := mkrlwe.NewKeyGenerator(p)
	late := p
	if bp != nil {
		late = (*bp).Parameters
	}
	sk, pk := kg.GenKeyPair("a")
	norm := func(i int) int { return ((i % h) + h) % h }
	for j := c.Range(1, 5); j > 0; j-- {
		idx := c.Range(-h+1, h-1)
		switch c.Intn(6) {
		case 0:
			idx += h * c.Range(-5, 5)
		case 1:
			idx = farRot(c, idx)
		case 2:
			idx = h * c.Range(-2, 2)
		}
		at := norm(idx)
		if before[at] != nil && at != 0 {
			continue // replacing a string is the caller's decision
		}
		switch c.Intn(3) {
		case 0:
			p.AddCRS(idx)
		case 1:
			cp.AddCRS(idx)
		default:
			late.AddCRS(idx)
		}
		if d := crsChanged(before, p); d != "" {
			c.Fatal("crs-changed", "AddCRS(%d) changed another string: %s", idx, d)
		}
		if at != 0 {
			for what, x := range map[string]mkrlwe.Parameters{"the parameters": p, "a copy": cp, "another copy": late} {
				if x.CRS[at] == nil {
					c.Fatal("crs-missing", "AddCRS(%d): %s have no string for the rotation by %d", idx, what, at)
				}
				if d := diffLimbs(snapSwk(p.CRS[at]), snapSwk(x.CRS[at])); d != "" {
					c.Fatal("crs-shared", "AddCRS(%d): %s have another string: %s", idx, what, d)
				}
			}
			if did, v := Panics(func() { kg.GenRotationKey(idx, sk) }); did {
				c.Fatal("crs-missing", "AddCRS(%d): a key generator made before cannot make the key: %v", idx, v)
			}
		}
		before = snapCRS(p)
		c.Eval("add/%s/%v/%v", s.Shape(), idx < 0, idx >= h || idx <= -h)
	}
	crsUniform(c, p, s)
	// use them
	if n := p.N(); n <= 4096 {
		rtk, cjk := mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
		kg.GenDefaultRotationKeys(sk, rtk)
		cjk.AddConjugationKey(kg.GenConjugationKey(sk))
		ct := mkrlwe.NewCiphertext(p, NewIDs("a"), p.MaxLevel())
		pt := &rlwe.Plaintext{Value: p.RingQ().NewPoly()}
		mkrlwe.NewEncryptor(p).Encrypt(pt, pk, ct)
		ks := mkrlwe.NewKeySwitcher(p)
		for idx := 1; idx < h; idx *= 2 {
			out := mkrlwe.NewCiphertext(p, NewIDs("a"), c.Range(0, p.MaxLevel()))
			ks.Rotate(ct, idx, rtk, out)
		}
		ks.Conjugate(ct, cjk, mkrlwe.NewCiphertext(p, NewIDs("a"), p.MaxLevel()))
		if bp == nil {
			set := mkrlwe.NewRelinearizationKeyKeySet(p)
			set.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKey("a")))
			out := mkrlwe.NewCiphertext(p, NewIDs("a"), p.MaxLevel())
			ks.MulAndRelin(ct, ct, set, out)
		} else {
			set := mkbfv.NewRelinearizationKeyKeySet(*bp)
			set.AddRelinearizationKey(mkbfv.NewKeyGenerator(*bp).GenRelinearizationKey(sk, kg.GenSecretKey("a")))
			x := &mkbfv.Ciphertext{Ciphertext: ct}
			mkbfv.NewEvaluator(*bp).MulRelinNew(x, x, set)
		}
		c.Eval("used/%s/bfv%v", s.Shape(), bp != nil)
	} else {
		kg.GenConjugationKey(sk)
		kg.GenRotationKey(1, sk)
	}
	// another request for the same parameters has strings of its own
	q := again()
	for idx := range p.CRS {
		if q.CRS[idx] == nil {
			q.AddCRS(idx)
		}
	}
	for idx, v := range p.CRS {
		if w := q.CRS[idx]; w != nil {
			for i := range v.Value {
				if diffLimbs(v.Value[i].Q.Coeffs[:1], w.Value[i].Q.Coeffs[:1]) == "" || diffLimbs(v.Value[i].P.Coeffs[:1], w.Value[i].P.Coeffs[:1]) == "" {
					c.Fatal("crs-repeated", "two parameter sets have the same CRS[%d][%d]", idx, i)
				}
			}
		}
	}
	if d := crsChanged(before, p); d != "" {
		c.Fatal("crs-changed", "using the parameters changed the common reference string: %s", d)
	}
	c.Eval("crs/%s/%d strings", s.Shape(), len(p.CRS))
}

// crsUniform: every residue of the whole string is uniform below its modulus, and
// neighbouring polynomials (of one string or of two) are not correlated.
func crsUniform(c *Case, p mkrlwe.Parameters, s *Spec) {
	const cells = 16
	mods := append(append([]uint64{}, s.Q...), s.P...)
	var idxs []int
	for idx := range p.CRS {
		idxs = append(idxs, idx)
	}
	pickSorted(c, idxs)
	total := make([]float64, cells)
	limb := make([][]float64, len(mods))
	for i := range limb {
		limb[i] = make([]float64, cells)
	}
	beta := p.Beta(p.MaxLevel())
	var prev [][]uint64
	prevWhere := ""
	for _, idx := range idxs {
		v := p.CRS[idx]
		if v == nil || len(v.Value) < beta {
			c.Fatal("crs", "CRS[%d] has fewer than %d elements", idx, beta)
		}
		for i, x := range v.Value[:beta] {
			cur := append(append([][]uint64{}, x.Q.Coeffs...), x.P.Coeffs...)
			where := fmt.Sprintf("CRS[%d][%d]", idx, i)
			if len(cur) != len(mods) {
				c.Fatal("crs", "%s has %d residues instead of %d", where, len(cur), len(mods))
			}
			for l, cf := range cur {
				if len(cf) != p.N() {
					c.Fatal("crs", "%s has %d coefficients", where, len(cf))
				}
				for _, y := range cf {
					if y >= mods[l] {
						c.Fatal("crs", "%s: residue %d is not below its modulus %d", where, y, mods[l])
					}
					cell := int(float64(y) / float64(mods[l]) * cells)
					if cell == cells {
						cell--
					}
					limb[l][cell]++
					total[cell]++
				}
				if l > 0 {
					correlated(c, fmt.Sprintf("residues %d and %d of %s", l-1, l, where), cur[l-1], mods[l-1], cf, mods[l])
				}
				if prev != nil {
					correlated(c, fmt.Sprintf("residue %d of %s and of %s", l, prevWhere, where), prev[l], mods[l], cf, mods[l])
				}
			}
			prev, prevWhere = cur, where
		}
	}
	chi := func(what string, cnt []float64) {
		var n, x float64
		for _, v := range cnt {
			n += v
		}
		e := n / cells
		if e < 50 {
			return
		}
		for _, v := range cnt {
			x += (v - e) * (v - e) / e
		}
		c.Stat("crs-chi2", x)
		if x > 110 { // 15 degrees of freedom: p < 1e-16
			c.Fatal("crs-distribution", "%s is not uniform below the modulus: chi-square %.1f over %d cells (%v)", what, x, cells, cnt)
		}
	}
	chi("the common reference string", total)
	for l := range limb {
		chi(fmt.Sprintf("residue %d of the common reference string", l), limb[l])
	}
}

func correlated(c *Case, what string, a []uint64, qa uint64, b []uint64, qb uint64) {
	n := len(a)
	var sum float64
	for j := range a {
		sum += (float64(a[j])/float64(qa) - 0.5) * (float64(b[j])/float64(qb) - 0.5)
	}
	// a product of two uniform centred variables has variance 1/144 and is at most 1/4
	if d := math.Abs(sum) * 12 / math.Sqrt(float64(n)); n >= 64 && d > 10 {
		c.Fatal("crs-correlated", "%s are correlated (%.1f standard deviations)", what, d)
	}
}

func init() {
	Register(&Prop{ID: "C25", Quick: 1200, Thorough: 24000, MinEvals: 200, Run: runC25,
		Rule: "one evaluation = one ring, gadget, added or used common reference string, or refused request judged; distinct = (what was judged, parameter shape, moduli)"})
}
