package props

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C19

// hostileInts draws n integers in [0, M) of many kinds; kind limits it to one kind.
func hostileInts(r *Rng, n int, mod []uint64, M *big.Int) []*big.Int {
	out := make([]*big.Int, n)
	one := big.NewInt(1)
	rnd := func() *big.Int {
		b := make([]byte, len(M.Bytes())+8)
		for i := range b {
			b[i] = byte(r.Uint64())
		}
		x := new(big.Int).SetBytes(b)
		return x.Mod(x, M)
	}
	mode := r.Intn(6)
	for i := range out {
		kind := mode
		if mode > 2 {
			kind = r.Intn(12)
		}
		var x *big.Int
		switch kind {
		case 0, 1, 2:
			x = rnd()
		case 3:
			x = big.NewInt(int64(r.Intn(3)))
		case 4:
			x = new(big.Int).Sub(M, big.NewInt(int64(1+r.Intn(3))))
		case 5:
			x = new(big.Int).Rsh(M, 1)
			x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
		case 6: // one residue extreme, the others zero
			q := new(big.Int).SetUint64(mod[r.Intn(len(mod))])
			h := new(big.Int).Div(M, q)
			inv := new(big.Int).ModInverse(h, q)
			if inv == nil {
				inv = one
			}
			x = new(big.Int).Mul(h, inv)
			if r.Coin(1, 2) {
				x.Neg(x)
			}
		case 7: // a multiple of a part of the modulus
			p := ProdQ(mod, 0, r.Intn(len(mod)))
			x = new(big.Int).Mul(p, new(big.Int).SetUint64(r.Uint64()))
			if r.Coin(1, 2) {
				x.Sub(x, one)
			}
		case 8: // small against the modulus
			x = new(big.Int).Rsh(rnd(), uint(r.Range(1, M.BitLen())))
		case 9:
			x = new(big.Int).Sub(M, new(big.Int).Rsh(rnd(), uint(r.Range(1, M.BitLen()))))
		case 10: // a fraction of the modulus
			x = new(big.Int).Mul(M, big.NewInt(int64(r.Range(0, 16))))
			x.Rsh(x, 4)
		default: // all residues extreme
			x = new(big.Int).Sub(M, one)
		}
		out[i] = x.Mod(x, M)
	}
	return out
}

// residues writes integers into limbs 0..level of a polynomial.
func residues(r *Rng, mod []uint64, v []*big.Int, p *ring.Poly, lazy bool) {
	t, m := new(big.Int), new(big.Int)
	for i, q := range mod {
		m.SetUint64(q)
		for j := range v {
			x := t.Mod(v[j], m).Uint64()
			if lazy && r.Coin(1, 2) {
				x += q
			}
			p.Coeffs[i][j] = x
		}
	}
}

// positive is the representative in [0, M) of the integer with the given residues.
func positive(mod []uint64, coeffs [][]uint64, M *big.Int) []*big.Int {
	v := CRTCoeffs(mod, coeffs)
	for _, x := range v {
		if x.Sign() < 0 {
			x.Add(x, M)
		}
	}
	return v
}

// extends checks that out is x modulo each of the moduli; x may be off by one
// M when x/M is within 2^-42 of 0 or 1 (the estimate of the quotient is a float).
func extends(x, M *big.Int, mods []uint64, out func(i int) uint64) string {
	off := []*big.Int{new(big.Int)}
	lim := new(big.Int).Rsh(M, 42)
	d := new(big.Int).Sub(M, x)
	if x.Cmp(lim) <= 0 || d.Cmp(lim) <= 0 {
		off = append(off, M, new(big.Int).Neg(M))
	}
	t, m := new(big.Int), new(big.Int)
	for _, o := range off {
		ok := true
		for i, q := range mods {
			m.SetUint64(q)
			if t.Add(x, o).Mod(t, m).Uint64() != out(i)%q {
				ok = false
				break
			}
		}
		if ok {
			return ""
		}
	}
	for i, q := range mods {
		m.SetUint64(q)
		if w := t.Mod(x, m).Uint64(); w != out(i)%q {
			return fmt.Sprintf("%v (modulus %v) is %d modulo %d, got %d", x, M, w, q, out(i)%q)
		}
	}
	return "residues of different integers"
}

// divided checks |got - x/D| <= 1 modulo M (got in [0,M)).
func divided(x, D, got, M *big.Int) string {
	q, rem := new(big.Int).DivMod(x, D, new(big.Int))
	d := new(big.Int).Sub(got, q)
	d.Mod(d, M)
	if d.Cmp(new(big.Int).Rsh(M, 1)) > 0 {
		d.Sub(d, M)
	}
	switch {
	case d.Sign() == 0 || d.IsInt64() && d.Int64() == 1:
		return ""
	case d.IsInt64() && d.Int64() == -1 && new(big.Int).Lsh(rem, 42).Cmp(D) <= 0:
		return ""
	}
	return fmt.Sprintf("%v divided by %v is %v, got that plus %v", x, D, q, d)
}

func runC19(c *Case) {
	switch c.Index % 4 {
	case 0, 1:
		basisKernels(c)
	case 2:
		gadgetKernels(c)
	default:
		bfvKernels(c)
	}
}

func kernelSpec(c *Case) *Spec {
	if c.Coin(1, 2) {
		return RandRLWESpec(c.Rng, 5, 10)
	}
	// plain lists of primes, all sizes mixed
	s := &Spec{Family: "kernel", Sigma: 3.2, Gamma: Pick(c.Rng, 1, 2, 2, 3), LogN: c.Range(4, 6), Scale: 1 << 30, LogSlots: 3}
	used := map[uint64]bool{}
	nq, np := c.Range(1, 16), c.Range(2, 8)
	if s.Gamma == 3 && np < 3 {
		np = 3
	}
	small := c.Range(20, 60)
	for i := 0; i < nq; i++ {
		s.Q = append(s.Q, NTTPrimes(c.Rng, s.LogN, c.Range(small, 60), 1, used)...)
	}
	for i := 0; i < np; i++ {
		s.P = append(s.P, NTTPrimes(c.Rng, s.LogN, c.Range(small, 60), 1, used)...)
	}
	return s
}

func basisKernels(c *Case) {
	spec := kernelSpec(c)
	p := NewRLWEParams(spec)
	rq, rp := p.RingQ(), p.RingP()
	c.Logf("basis extension, %v", spec)
	ext := mkrlwe.NewFastBasisExtender(rq, rp)
	if c.Coin(1, 3) {
		ext = ext.ShallowCopy()
	}
	mq, mp := len(rq.Modulus)-1, len(rp.Modulus)-1
	rounds := 24
	for s := 0; s < rounds; s++ {
		lq, lp := c.Range(0, mq), c.Range(0, mp)
		if c.Coin(1, 3) {
			lq, lp = mq, mp
		}
		Q, P := ProdQ(rq.Modulus, 0, lq), ProdQ(rp.Modulus, 0, lp)
		qs, ps := rq.Modulus[:lq+1], rp.Modulus[:lp+1]
		inQ, inP := rq.NewPoly(), rp.NewPoly()
		oq, op := rq.NewPoly(), rp.NewPoly()
		lazy := c.Coin(1, 3)
		op0 := Pick(c.Rng, "ModUpQtoP", "ModUpPtoQ", "ModDownQPtoQ", "ModDownQPtoP", "ModDownQPtoQNTT")
		where := fmt.Sprintf("%s at levels %d, %d", op0, lq, lp)
		switch op0 {
		case "ModUpQtoP":
			x := hostileInts(c.Rng, rq.N, qs, Q)
			residues(c.Rng, qs, x, inQ, lazy)
			before := copyLimbs(inQ.Coeffs)
			ext.ModUpQtoP(lq, lp, inQ, op)
			if d := diffLimbs(before, inQ.Coeffs); d != "" {
				c.Fatal("input-changed", "%s: %s", where, d)
			}
			for j := range x {
				if d := extends(x[j], Q, ps, func(i int) uint64 { return op.Coeffs[i][j] }); d != "" {
					c.Fatal("modup", "%s, coefficient %d: %s", where, j, d)
				}
			}
		case "ModUpPtoQ":
			x := hostileInts(c.Rng, rq.N, ps, P)
			residues(c.Rng, ps, x, inP, lazy)
			ext.ModUpPtoQ(lp, lq, inP, oq)
			for j := range x {
				if d := extends(x[j], P, qs, func(i int) uint64 { return oq.Coeffs[i][j] }); d != "" {
					c.Fatal("modup", "%s, coefficient %d: %s", where, j, d)
				}
			}
		default:
			QP := new(big.Int).Mul(Q, P)
			all := append(append([]uint64{}, qs...), ps...)
			x := hostileInts(c.Rng, rq.N, all, QP)
			if c.Coin(1, 2) {
				// remainders of the division at their extremes
				D := P
				if op0 == "ModDownQPtoP" {
					D = Q
				}
				rem := hostileInts(c.Rng, rq.N, all, D)
				for j := range x {
					x[j].Sub(x[j], new(big.Int).Mod(x[j], D))
					x[j].Add(x[j], rem[j])
					x[j].Mod(x[j], QP)
				}
			}
			ntt := op0 == "ModDownQPtoQNTT"
			residues(c.Rng, qs, x, inQ, lazy && !ntt)
			residues(c.Rng, ps, x, inP, lazy && !ntt)
			inPlace := c.Coin(1, 2)
			switch op0 {
			case "ModDownQPtoQ":
				if inPlace {
					oq = inQ
				}
				ext.ModDownQPtoQ(lq, lp, inQ, inP, oq)
			case "ModDownQPtoQNTT":
				rq.NTTLvl(lq, inQ, inQ)
				rp.NTTLvl(lp, inP, inP)
				if inPlace {
					oq = inQ
				}
				ext.ModDownQPtoQNTT(lq, lp, inQ, inP, oq)
				for i := 0; i <= lq; i++ {
					for j := range oq.Coeffs[i] {
						oq.Coeffs[i][j] %= rq.Modulus[i]
					}
				}
				rq.InvNTTLvl(lq, oq, oq)
			case "ModDownQPtoP":
				if inPlace {
					op = inP
				}
				ext.ModDownQPtoP(lq, lp, inQ, inP, op)
			}
			mod, M, D, o := qs, Q, P, oq
			if op0 == "ModDownQPtoP" {
				mod, M, D, o = ps, P, Q, op
			}
			got := positive(mod, o.Coeffs[:len(mod)], M)
			for j := range x {
				if d := divided(x[j], D, got[j], M); d != "" {
					c.Fatal("moddown", "%s, coefficient %d: %s", where, j, d)
				}
			}
		}
		c.Eval("%s/q%d/%d/p%d/%d/lazy%v", op0, lq, mq, lp, mp, lazy)
	}
}

func gadgetKernels(c *Case) {
	spec := kernelSpec(c)
	p := NewRLWEParams(spec)
	rq, rp := p.RingQ(), p.RingP()
	c.Logf("gadget decomposition, %v", spec)
	ks := mkrlwe.NewKeySwitcher(p)
	o := NewQP(p)
	n := rq.N
	mq, mp := len(rq.Modulus)-1, len(rp.Modulus)-1
	alpha := p.Alpha()
	beta0 := p.Beta(mq)
	if alpha < 1 {
		return
	}
	// a random switching key, in Montgomery form, as the external product wants it
	swk := mkrlwe.NewSwitchingKey(p)
	for _, v := range swk.Value {
		a, b := randPoly(c.Rng, rq, mq), randPoly(c.Rng, rp, mp)
		rq.MForm(a, v.Q)
		rp.MForm(b, v.P)
	}
	dcmp := mkrlwe.NewDecomposer(rq, rp, p.Gamma())
	ad := mkrlwe.NewSwitchingKey(p)
	P := ProdQ(rp.Modulus, 0, mp)
	for s := 0; s < 5; s++ {
		l := c.Range(0, mq)
		if c.Coin(1, 3) {
			l = mq
		}
		qs := rq.Modulus[:l+1]
		Q := ProdQ(qs, 0, l)
		x := hostileInts(c.Rng, n, qs, Q)
		a := rq.NewPoly()
		residues(c.Rng, qs, x, a, false)
		beta := p.Beta(l)
		all := append(append([]uint64{}, qs...), rp.Modulus...)
		digits := make([][]*big.Int, beta)
		edge := false
		for i := 0; i < beta; i++ {
			hi := mini((i+1)*alpha-1, l)
			B := ProdQ(rq.Modulus, i*alpha, hi)
			lim := new(big.Int).Rsh(B, 42)
			digits[i] = make([]*big.Int, n)
			for j := range x {
				digits[i][j] = new(big.Int).Mod(x[j], B)
				if hi > i*alpha && (digits[i][j].Cmp(lim) <= 0 && digits[i][j].Sign() > 0 || new(big.Int).Sub(B, digits[i][j]).Cmp(lim) <= 0) {
					edge = true
				}
			}
			oq, op := rq.NewPoly(), rp.NewPoly()
			dcmp.DecomposeAndSplit(l, mp, alpha, i, p.Gamma(), a, oq, op)
			for j := range x {
				if d := extends(digits[i][j], B, all, func(t int) uint64 {
					if t <= l {
						return oq.Coeffs[t][j]
					}
					return op.Coeffs[t-l-1][j]
				}); d != "" {
					c.Fatal("digit", "DecomposeAndSplit at level %d of %d, digit %d of %d (alpha %d, gamma %d), coefficient %d: %s", l, mq, i, beta, alpha, p.Gamma(), j, d)
				}
			}
		}
		c.Eval("split/q%d/%d/p%d/g%d", l, mq, mp, p.Gamma())
		// the whole decomposition, from either domain
		in := a
		if c.Coin(1, 2) {
			in = a.CopyNew()
			rq.NTTLvl(l, in, in)
			in.IsNTT = true
		}
		ks.Decompose(l, in, ad)
		for i := 0; i < beta; i++ {
			q, pp := ad.Value[i].Q.CopyNew(), ad.Value[i].P.CopyNew()
			rq.InvNTTLvl(l, q, q)
			rp.InvNTT(pp, pp)
			hi := mini((i+1)*alpha-1, l)
			B := ProdQ(rq.Modulus, i*alpha, hi)
			for j := range x {
				if d := extends(digits[i][j], B, all, func(t int) uint64 {
					if t <= l {
						return q.Coeffs[t][j]
					}
					return pp.Coeffs[t-l-1][j]
				}); d != "" {
					c.Fatal("digit", "Decompose at level %d of %d, digit %d of %d, input in NTT form: %v, coefficient %d: %s", l, mq, i, beta, in.IsNTT, j, d)
				}
			}
		}
		c.Eval("decompose/q%d/%d/p%d/g%d/ntt%v", l, mq, mp, p.Gamma(), in.IsNTT)
		if edge {
			continue
		}
		// external products: floor(sum of digit * key / P), at most one off
		want := exactExternal(o, p, digits, swk, l)
		for _, hoisted := range []bool{false, true} {
			out := rq.NewPoly()
			if hoisted {
				ks.ExternalProductHoisted(l, ad, swk, out)
			} else {
				ks.ExternalProduct(l, in, swk, out)
			}
			got := positive(qs, out.Coeffs[:l+1], Q)
			for j := range got {
				if d := divided(want[j], P, got[j], Q); d != "" {
					c.Fatal("external-product", "external product (hoisted %v) at level %d of %d, beta %d of %d, coefficient %d: %s", hoisted, l, mq, beta, beta0, j, d)
				}
			}
			c.Eval("external/q%d/%d/p%d/g%d/h%v", l, mq, mp, p.Gamma(), hoisted)
		}
	}
}

// exactExternal computes the sum of digit times key modulo Q_l P, as integers.
func exactExternal(o *QP, p mkrlwe.Parameters, digits [][]*big.Int, swk *mkrlwe.SwitchingKey, l int) []*big.Int {
	rq, rp := p.RingQ(), p.RingP()
	mp := len(rp.Modulus) - 1
	qs := rq.Modulus[:l+1]
	all := append(append([]uint64{}, qs...), rp.Modulus...)
	sumQ, sumP := rq.NewPoly(), rp.NewPoly()
	for i := range digits {
		dq, dp := FromBig(rq, l, digits[i]), FromBig(rp, mp, digits[i])
		k := o.Read(swk.Value[i], true)
		nq, np := ring.NewPoly(rq.N, l+1), rp.NewPoly()
		rq.NTTLvl(l, dq, nq)
		rp.NTT(dp, np)
		for t := range all {
			var d, s []uint64
			var key []uint64
			if t <= l {
				d, s, key = nq.Coeffs[t], sumQ.Coeffs[t], k[t]
			} else {
				d, s, key = np.Coeffs[t-l-1], sumP.Coeffs[t-l-1], k[len(rq.Modulus)+t-l-1]
			}
			for j := range s {
				s[j] = (s[j] + MulMod(d[j]%all[t], key[j], all[t])) % all[t]
			}
		}
	}
	rq.InvNTTLvl(l, sumQ, sumQ)
	rp.InvNTT(sumP, sumP)
	limbs := append(append([][]uint64{}, sumQ.Coeffs[:l+1]...), sumP.Coeffs...)
	M := ProdQ(all, 0, len(all)-1)
	return positive(all, limbs, M)
}

func bfvKernels(c *Case) {
	spec := RandBFVSpec(c.Rng, BFVOpt{MinBits: c.Range(24, 56), MaxLogN: 6, MaxQ: 8})
	p := NewBFVParams(spec)
	c.Logf("BFV lifting and scaling, %v", spec)
	rq, rm, rr := p.RingQ(), p.RingQMul(), p.RingR()
	conv := mkbfv.NewFastBasisExtender(p.RingP(), rq, rm, rr)
	nq := len(rq.Modulus)
	Q, M := ProdQ(rq.Modulus, 0, nq-1), ProdQ(rm.Modulus, 0, nq-1)
	R := new(big.Int).Mul(Q, M)
	n := rq.N
	for s := 0; s < 8; s++ {
		op := Pick(c.Rng, "ModUpQtoR", "Quantize", "Rescale")
		switch op {
		case "ModUpQtoR":
			x := hostileInts(c.Rng, n, rq.Modulus, Q)
			in, out := rq.NewPoly(), rr.NewPoly()
			residues(c.Rng, rq.Modulus, x, in, false)
			conv.ModUpQtoR(in, out)
			for j := range x {
				for i := range rq.Modulus {
					if out.Coeffs[i][j]%rq.Modulus[i] != in.Coeffs[i][j] {
						c.Fatal("lift", "ModUpQtoR changed coefficient %d modulo q_%d", j, i)
					}
				}
				if d := extends(x[j], Q, rm.Modulus, func(i int) uint64 { return out.Coeffs[nq+i][j] }); d != "" {
					c.Fatal("lift", "ModUpQtoR, coefficient %d: %s", j, d)
				}
			}
		case "Quantize":
			x := hostileInts(c.Rng, n, rr.Modulus, R)
			t := Pick(c.Rng, spec.T, spec.T, 1, 2)
			in, out := rr.NewPoly(), rq.NewPoly()
			residues(c.Rng, rr.Modulus, x, in, false)
			rr.NTT(in, in)
			before := copyLimbs(in.Coeffs)
			conv.Quantize(in, out, t)
			if d := diffLimbs(before, in.Coeffs); d != "" {
				c.Fatal("input-changed", "Quantize changed its operand: %s", d)
			}
			got := positive(rq.Modulus, out.Coeffs, Q)
			for j := range x {
				y := new(big.Int).Mul(x[j], new(big.Int).SetUint64(t))
				y.Mod(y, R)
				if d := divided(y, M, got[j], Q); d != "" {
					c.Fatal("quantize", "Quantize with t=%d, coefficient %d: %s", t, j, d)
				}
			}
		case "Rescale":
			x := hostileInts(c.Rng, n, rq.Modulus, Q)
			in, out := rq.NewPoly(), rr.NewPoly()
			residues(c.Rng, rq.Modulus, x, in, false)
			conv.Rescale(in, out)
			got := positive(rm.Modulus, out.Coeffs[nq:], M)
			for j := range x {
				y := new(big.Int).Mul(x[j], M)
				if d := divided(y, Q, got[j], M); d != "" {
					c.Fatal("rescale", "Rescale modulo QMul, coefficient %d: %s", j, d)
				}
				if d := extends(got[j], M, rq.Modulus, func(i int) uint64 { return out.Coeffs[i][j] }); d != "" {
					c.Fatal("rescale", "Rescale modulo Q, coefficient %d: %s", j, d)
				}
			}
		}
		c.Eval("%s/q%d/n%d", op, nq, n)
	}
}

func init() {
	Register(&Prop{ID: "C19", Quick: 6000, Thorough: 120000, MinEvals: 30000, Run: runC19,
		Rule: "one evaluation = one call of a kernel whose every coefficient is compared with the integer result; distinct = (kernel, levels, primes, laziness or domain of the input)",
		Assumptions: []string{"at most 32 primes (fixed size of the kernels' scratch arrays)",
			"an extension may be off by one modulus when the value is within 2^-42 of a multiple of it, a division by one unit (float estimate of the quotient)"}})
}
