package props

import (
	"math"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// binput is a BFV ciphertext with what it encrypts.
type binput struct {
	ct  *mkbfv.Ciphertext
	msg []int64
	ids map[string]bool
	rel float64 // measured noise, relative to Q (exact decryption below 1/2)
}

func bigBFVSpec(c *Case, nq int) *Spec { return bigBFVSpecN(c, nq, c.Range(13, 14)) }

func bigBFVSpecN(c *Case, nq, logN int) *Spec {
	s := &Spec{Family: "bfv-big", Sigma: 3.2, Gamma: 2, LogN: logN}
	used := map[uint64]bool{}
	b := c.Range(50, 58)
	s.Q = NTTPrimes(c.Rng, s.LogN, b, nq, used)
	s.QMul = NTTPrimes(c.Rng, s.LogN, b, nq, used)
	s.P = NTTPrimes(c.Rng, s.LogN, mini(60, b+1), Pick(c.Rng, 2, 3), used)
	s.T = 65537
	if c.Coin(1, 2) || logN > 15 {
		s.T = SmallNTTPrime(c.Rng, s.LogN, s.LogN+c.Range(3, 10), used)
	}
	return s
}

func bspecFor(c *Case, big bool, o BFVOpt) *Spec {
	if big {
		return bigBFVSpec(c, 5)
	}
	if logN := hugeN(c); logN != 0 {
		spec := bigBFVSpecN(c, maxi(o.MinQ, 2), logN)
		spec.P = spec.P[:2]
		return spec
	}
	if c.Index%bigEvery == 0 {
		return bigBFVSpec(c, maxi(o.MinQ, c.Range(1, 3)))
	}
	return RandBFVSpec(c.Rng, o)
}

func (b *binput) measure(k *BFV) *binput {
	b.rel, _ = k.NoiseOf(b.ct)
	return b
}

// checkBFV: the noise of ct is below bound, its party set is ids, and the
// library decrypts it to want.
func checkBFV(c *Case, k *BFV, what string, ct *mkbfv.Ciphertext, ids map[string]bool, want []int64, bound float64) float64 {
	CheckShape(c, what, ct.Ciphertext, ids, k.P.MaxLevel())
	for id, p := range ct.Value {
		if p.IsNTT {
			c.Fatal("domain", "%s: component %q is flagged as NTT", what, id)
		}
	}
	rel, pt := k.NoiseOf(ct)
	enc := bfvEncoder(k)
	// what the phase rounds to, compared with the expected plaintext, by the oracle's own decoding
	exp := bfv.NewPlaintextRingT(bfvParams(k))
	enc.EncodeIntRingT(want, exp)
	for j, v := range pt {
		if v != exp.Value.Coeffs[0][j]%k.T {
			c.Fatal("result", "%s: coefficient %d of the phase rounds to %d mod t, expected %d (noise %g of Q, bound %g)", what, j, v, exp.Value.Coeffs[0][j], rel, bound)
		}
	}
	if rel > bound {
		c.Fatal("noise", "%s: noise %g of Q exceeds the bound %g", what, rel, bound)
	}
	if c.Coin(1, 3) {
		k.AsOperand(what, ct)
	}
	before := snapRLWE(ct.Ciphertext)
	got := k.Dec.Decrypt(ct, k.SKSet)
	k.Keep(got)
	if ok, at := SameT(got.Value, want, k.T); !ok {
		c.Fatal("result", "%s: slot %d is %d, expected %d (t=%d, noise %g of Q)", what, at, got.Value[maxi(at, 0)], CenterT(want[maxi(at, 0)], k.T), k.T, rel)
	}
	for j, v := range got.Value {
		// (t-1)/2 is decoded as its other representative -(t+1)/2 by the encoder
		if v > int64(k.T/2) || v < -int64(k.T/2)-1 {
			c.Fatal("range", "%s: slot %d is %d, not a centred representative modulo t=%d", what, j, v, k.T)
		}
	}
	if d := before.diffRLWE(ct.Ciphertext); d != "" {
		c.Fatal("input-changed", "decryption changed its ciphertext: %s", d)
	}
	return rel
}

func bfvParams(k *BFV) bfv.Parameters {
	p, err := bfv.NewParameters(k.P.Parameters.Parameters, k.T)
	if err != nil {
		panic(err)
	}
	return p
}

func bfvEncoder(k *BFV) bfv.Encoder { return bfv.NewEncoder(bfvParams(k)) }

// freshRel is the largest relative noise of a sum of n fresh encryptions.
func freshRel(k *BFV, n int) float64 {
	q, t := qf(k), float64(k.T)
	// encoding rounds Q/t*m: an error of at most 1/2 (t/2Q relative), plus a possible floor
	return float64(n) * t * (k.Noise.FreshMax() + 1) / q
}

func qf(k *BFV) float64 { return modProd(k.R.Modulus) }

func modProd(m []uint64) float64 {
	x := 1.0
	for _, q := range m {
		x *= float64(q)
	}
	return x
}

func (k2 *binput) l1(k *BFV) float64 {
	x := 1.0
	for id := range k2.ids {
		x += k.S[id].L1
	}
	return x
}

func makeBInput(c *Case, k *BFV, ids []string) *binput {
	b := &binput{ids: setOf(ids)}
	b.msg, b.ct = k.EncryptOver(ids)
	return b.measure(k)
}

// ---------------------------------------------------------------- C09

func runC09(c *Case) {
	spec := bspecFor(c, c.Index == 1, BFVOpt{MinBits: 36, Big: true})
	k := NewBFV(c, spec, Parties(c.Rng, spec, 1, 4))
	k.CheckParams()
	if freshRel(k, len(k.IDs)) > 0.25 {
		c.Logf("no room for the noise: skipped")
		return
	}
	enc := bfvEncoder(k)
	var hist []*binput
	var m *mkbfv.Message
	for i := c.Range(3, 7); i > 0; i-- {
		if hist != nil && startOver(c, k.N, k.IDs, k.Renew) {
			hist = nil
		}
		id := Pick(c.Rng, k.IDs...)
		if m == nil || c.Coin(2, 3) {
			m = k.RandMsg()
		} else {
			FillInts(c.Rng, m.Value, k.T) // the object of the round before, filled anew
		}
		if len(m.Value) == k.N && c.Coin(1, 8) {
			m.Value = m.Value[:c.Range(0, k.N-1)] // the other slots hold zero
		}
		saved := append(append([]int64{}, m.Value...), make([]int64, k.N-len(m.Value))...)
		mode := Pick(c.Rng, "msgnew", "msg-into", "ptxt", "ptxt-ntt")
		var ct *mkbfv.Ciphertext
		ntt := false
		switch mode {
		case "msgnew":
			ct = k.Enc.EncryptMsgNew(m, k.PK[id])
		case "msg-into", "ptxt", "ptxt-ntt":
			ct = mkbfv.NewCiphertext(k.P, NewIDs(id))
			if c.Coin(1, 3) {
				ct, ntt = mkbfv.NewCiphertextNTT(k.P, NewIDs(id)), true
			}
			for _, p := range ct.Value {
				for i := range p.Coeffs {
					for j := range p.Coeffs[i] {
						p.Coeffs[i][j] = c.Uint64() % k.R.Modulus[i]
					}
				}
			}
			if mode == "msg-into" {
				k.Enc.EncryptMsg(m, k.PK[id], ct)
			} else {
				pt := bfv.NewPlaintext(bfvParams(k))
				enc.EncodeInt(m.Value, pt)
				if mode == "ptxt-ntt" {
					k.R.NTT(pt.Value, pt.Value)
					pt.Value.IsNTT = true
				}
				before := copyLimbs(pt.Value.Coeffs)
				k.Enc.EncryptPtxt(pt, k.PK[id], ct)
				if d := diffLimbs(before, pt.Value.Coeffs); d != "" {
					c.Fatal("input-changed", "encryption changed its plaintext: %s", d)
				}
			}
		}
		c.Logf("%s by %q, receiver NTT %v", mode, id, ntt)
		for j := range m.Value {
			if saved[j] != m.Value[j] {
				c.Fatal("input-changed", "encryption changed slot %d of its message", j)
			}
		}
		for comp, p := range ct.Value {
			if p.IsNTT != ntt {
				c.Fatal("domain", "component %q: IsNTT=%v, the receiver had %v", comp, p.IsNTT, ntt)
			}
		}
		// decryption of the ciphertext as it is, NTT or not
		got := k.Dec.Decrypt(ct, k.SKSet)
		k.Keep(got)
		for j, v := range got.Value {
			if v != saved[j] && !(saved[j] == int64(k.T/2) && v == saved[j]-int64(k.T)) {
				c.Fatal("result", "decryption of a fresh encryption (%s, NTT %v): slot %d is %d, expected %d (t=%d)", mode, ntt, j, v, saved[j], k.T)
			}
		}
		if ntt {
			for _, p := range ct.Value {
				k.R.InvNTT(p, p)
				p.IsNTT = false
			}
		}
		b := &binput{ct: ct, msg: saved, ids: one(id)}
		rel := checkBFV(c, k, "fresh encryption", ct, one(id), saved, freshRel(k, 1))
		c.Stat("fresh-noise/bound", rel/freshRel(k, 1))
		hist = append(hist, b)
		h := hist[c.Intn(len(hist))]
		checkBFV(c, k, "second decryption of an earlier ciphertext", h.ct, h.ids, h.msg, freshRel(k, 1))
		c.Eval("%s/%s/ntt%v/t%d", spec.Shape(), mode, ntt, int(math.Log2(float64(k.T))))
	}
}

// ---------------------------------------------------------------- C10

func runC10(c *Case) {
	spec := bspecFor(c, c.Index == 1, BFVOpt{MinBits: 40, Big: true, MinQ: 1})
	np := Parties(c.Rng, spec, 1, 5)
	if c.Index == 1 {
		np = 2
	}
	k := NewBFV(c, spec, np)
	pool := []*binput{}
	for i := 0; i < 3; i++ {
		pool = append(pool, makeBInput(c, k, Subset(c.Rng, k.IDs)))
	}
	for i := c.Range(5, 9); i > 0; i-- {
		if c.Coin(1, 4) {
			reloadB(Pick(c.Rng, pool...), makeBInput(c, k, Subset(c.Rng, k.IDs)))
		}
		a, b := Pick(c.Rng, pool...), Pick(c.Rng, pool...)
		bound := a.rel + b.rel + 1e-12
		if bound > 0.2 {
			continue
		}
		sub := c.Coin(1, 2)
		sa, sb := snapRLWE(a.ct.Ciphertext), snapRLWE(b.ct.Ciphertext)
		var out *mkbfv.Ciphertext
		if sub {
			out = k.Eval.SubNew(a.ct, b.ct)
		} else {
			out = k.Eval.AddNew(a.ct, b.ct)
		}
		c.Logf("sub=%v %v %v", sub, a.ids, b.ids)
		if d := sa.diffRLWE(a.ct.Ciphertext) + sb.diffRLWE(b.ct.Ciphertext); d != "" {
			c.Fatal("input-changed", "add/sub changed an input: %s", d)
		}
		want := make([]int64, len(a.msg))
		for j := range want {
			if sub {
				want[j] = CenterT(a.msg[j]-b.msg[j], k.T)
			} else {
				want[j] = CenterT(a.msg[j]+b.msg[j], k.T)
			}
		}
		ids := Union(a.ids, b.ids)
		level := k.P.MaxLevel()
		x, y := Phase(k.R, a.ct.Ciphertext, k.S), Phase(k.R, b.ct.Ciphertext, k.S)
		exp := AddPoly(k.R, level, x, y)
		if sub {
			exp = SubPoly(k.R, level, x, y)
		}
		if !EqualPoly(k.R, level, Phase(k.R, out.Ciphertext, k.S), exp) {
			c.Fatal("result", "add/sub (sub=%v): the phase is not exactly the one of the inputs", sub)
		}
		// encodings round independently: the relative noise may also move by t/Q per operand
		rel := checkBFV(c, k, "add/sub", out, ids, want, bound+4*float64(k.T)/qf(k))
		pool = append(pool, &binput{ct: out, msg: want, ids: ids, rel: rel})
		c.Eval("%s/sub%v/ov%s/same%v", spec.Shape(), sub, overlap(a.ids, b.ids), a == b)
	}
}

// ---------------------------------------------------------------- C11

// bfvMulBound bounds the relative noise of a product: soft is what random
// noise stays well below, hard the worst case.
func bfvMulBound(k *BFV, a, b *binput) (soft, hard float64) {
	N, t := float64(k.N), float64(k.T)
	q, qm := qf(k), modProd(k.Spec.QMul)
	la, lb := a.l1(k), b.l1(k)
	ra := a.rel + t*1/q
	rb := b.rel + t*(1+lb)/qm + t/q
	hard = N*t*(ra*(lb+1)+rb*(la+1)) + N*ra*rb
	ka, kb := 10*math.Sqrt(la)+2, 10*math.Sqrt(lb)+2
	// the coefficients of the integer part of a phase are sums of la terms of
	// random sign: below ka. No such saving for the convolution: digits and
	// lifts are not centred, so errors are correlated from one coefficient to
	// the next
	soft = N*t*(ra*kb+rb*ka) + N*ra*rb
	// relinearization
	alpha := k.P.Alpha()
	D := math.Max(digit(k.Spec.Q, alpha), digit(k.Spec.QMul, alpha))
	beta := float64(2 * k.P.Beta(k.P.MaxLevel()))
	P := modProd(k.Spec.P)
	ids := Union(a.ids, b.ids)
	n := float64(len(ids))
	B := k.Noise.Bound
	gad := n * n * beta * N * N * D * D * (4*B + la + lb) / P
	relin := gad + n*beta*N*D*2*B/P + 8*(1+N)*n*n + 4*n*N
	hard += relin * t / q
	soft += relin * t / q
	if soft > hard {
		soft = hard
	}
	return
}

func digit(qs []uint64, alpha int) float64 {
	d := 0.0
	for i := 0; i < len(qs); i += alpha {
		x := 1.0
		for j := i; j < i+alpha && j < len(qs); j++ {
			x *= float64(qs[j])
		}
		d = math.Max(d, x)
	}
	return d
}

func mulMsg(a, b []int64, t uint64) []int64 {
	o := make([]int64, len(a))
	for j := range o {
		o[j] = MulT(a[j], b[j], t)
	}
	return o
}

func runC11(c *Case) {
	spec := bspecFor(c, c.Index == 1, BFVOpt{MinBits: 48, MinQ: 1, MaxQ: 8})
	np := Parties(c.Rng, spec, 1, 4)
	if c.Index == 1 {
		np = 2
	}
	k := NewBFV(c, spec, np)
	k.NeedRlk()
	pool := []*binput{}
	for i := 0; i < 2; i++ {
		pool = append(pool, makeBInput(c, k, Subset(c.Rng, k.IDs)))
	}
	depth := map[*binput]int{}
	var conv *mkbfv.FastBasisExtender
	var ks *mkbfv.KeySwitcher
	rounds := c.Range(3, 7)
	if k.N > 4096 {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		if i > 0 && startOver(c, k.N, k.IDs, k.Renew) {
			for _, x := range pool {
				*x = *makeBInput(c, k, Subset(c.Rng, k.IDs))
				depth[x] = 0
			}
		}
		if c.Coin(1, 4) {
			x := Pick(c.Rng, pool...)
			reloadB(x, makeBInput(c, k, Subset(c.Rng, k.IDs)))
			depth[x] = 0
		}
		a, b := Pick(c.Rng, pool...), Pick(c.Rng, pool...)
		if c.Coin(1, 5) {
			b = a
		}
		soft, hard := bfvMulBound(k, a, b)
		if soft > 0.2 {
			pool = append(pool, makeBInput(c, k, Subset(c.Rng, k.IDs)))
			continue
		}
		d := 1 + maxi(depth[a], depth[b])
		c.Logf("product of %v (noise 2^%.1f) and %v (noise 2^%.1f), depth %d, same=%v", a.ids, math.Log2(a.rel), b.ids, math.Log2(b.rel), d, a == b)
		sa, sb := snapRLWE(a.ct.Ciphertext), snapRLWE(b.ct.Ciphertext)
		out := k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet)
		if d := sa.diffRLWE(a.ct.Ciphertext) + sb.diffRLWE(b.ct.Ciphertext); d != "" {
			c.Fatal("input-changed", "MulRelinNew changed an input: %s", d)
		}
		ids := Union(a.ids, b.ids)
		o := &binput{ct: out, msg: mulMsg(a.msg, b.msg, k.T), ids: ids}
		o.rel = checkBFV(c, k, "MulRelinNew", out, ids, o.msg, soft)
		c.Stat("mul-noise/soft-bound", o.rel/soft)
		c.Stat("mul-noise/hard-bound", o.rel/hard)
		depth[o] = d
		pool = append(pool, o)
		c.Eval("%s/ov%s/depth%d/sq%v", spec.Shape(), overlap(a.ids, b.ids), d, a == b)
		if c.Coin(1, 3) && k.N <= 4096 {
			if ks == nil {
				conv = mkbfv.NewFastBasisExtender(k.P.RingP(), k.P.RingQ(), k.P.RingQMul(), k.P.RingR())
				ks = mkbfv.NewKeySwitcher(k.P)
			}
			bfvGenericMul(c, k, conv, ks, a, b, soft)
		}
	}
}

// lift brings a ciphertext into the extended modulus of the BFV product.
func lift(k *BFV, ct *mkbfv.Ciphertext, f func(x, y *ring.Poly)) *mkrlwe.Ciphertext {
	o := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range ct.Value {
		o.Value[id] = k.P.RingR().NewPoly()
		f(p.CopyNew(), o.Value[id])
	}
	return o
}

// dirtyBFV is a receiver which may hold something from before.
func dirtyBFV(c *Case, k *BFV, ids map[string]bool) *mkbfv.Ciphertext {
	out := mkbfv.NewCiphertext(k.P, NewIDs(keys(ids)...))
	if c.Coin(1, 2) {
		for _, id := range keys(ids) {
			for _, x := range [][][]uint64{out.Value["0"].Coeffs, out.Value[id].Coeffs} {
				for i := range x {
					for j := range x[i] {
						x[i][j] = c.Uint64() % k.R.Modulus[i]
					}
				}
			}
		}
	}
	return out
}

// bfvGenericMul runs the non-hoisted product of the key-switching layer.
func bfvGenericMul(c *Case, k *BFV, conv *mkbfv.FastBasisExtender, ks *mkbfv.KeySwitcher, a, b *binput, soft float64) {
	x := lift(k, a.ct, conv.ModUpQtoR)
	y := lift(k, b.ct, conv.Rescale)
	ids := Union(a.ids, b.ids)
	out := dirtyBFV(c, k, ids)
	ks.MulAndRelinBFV(x, y, k.RlkSet, out.Ciphertext)
	checkBFV(c, k, "MulAndRelinBFV", out, ids, mulMsg(a.msg, b.msg, k.T), soft)
	c.Eval("generic/%s/ov%s", k.Spec.Shape(), overlap(a.ids, b.ids))
}

// bhoist is the hoisted form of one operand of a BFV product.
type bhoist struct {
	ct     *mkrlwe.Ciphertext
	h1, h2 *mkrlwe.HoistedCiphertext
	s1, s2 map[string]uint64
}

func newBHoist(k *BFV, ks *mkbfv.KeySwitcher, ct *mkrlwe.Ciphertext) *bhoist {
	h := &bhoist{ct: ct, h1: mkrlwe.NewHoistedCiphertext(), h2: mkrlwe.NewHoistedCiphertext()}
	for id, p := range ct.Value {
		h.h1.Value[id] = mkrlwe.NewSwitchingKey(k.P.Parameters)
		h.h2.Value[id] = mkrlwe.NewSwitchingKey(k.P.Parameters)
		ks.DecomposeBFV(k.P.MaxLevel(), p, h.h1.Value[id], h.h2.Value[id])
	}
	h.s1, h.s2 = hoistHash(h.h1), hoistHash(h.h2)
	return h
}

func (h *bhoist) changed() bool {
	n1, n2 := hoistHash(h.h1), hoistHash(h.h2)
	for id := range h.s1 {
		if n1[id] != h.s1[id] || n2[id] != h.s2[id] {
			return true
		}
	}
	return false
}

// runC04BFV: products from precomputed forms against the direct products.
func runC04BFV(c *Case) {
	spec := RandBFVSpec(c.Rng, BFVOpt{MinBits: 48, MinQ: 1, MaxQ: 6})
	k := NewBFV(c, spec, Parties(c.Rng, spec, 1, 4))
	k.NeedRlk()
	conv := mkbfv.NewFastBasisExtender(k.P.RingP(), k.P.RingQ(), k.P.RingQMul(), k.P.RingR())
	ks := mkbfv.NewKeySwitcher(k.P)
	level := k.P.MaxLevel()
	var as, bs []*bhoist
	var ins []*binput
	fill := func() {
		as, bs, ins = nil, nil, nil
		for i := 0; i < 3; i++ {
			b := makeBInput(c, k, Subset(c.Rng, k.IDs))
			ins = append(ins, b)
			as = append(as, newBHoist(k, ks, lift(k, b.ct, conv.ModUpQtoR)))
			bs = append(bs, newBHoist(k, ks, lift(k, b.ct, conv.Rescale)))
		}
	}
	fill()
	for r := c.Range(3, 6); r > 0; r-- {
		if startOver(c, k.N, k.IDs, k.Renew) {
			fill()
		}
		i, j := c.Intn(len(ins)), c.Intn(len(ins))
		a, b := ins[i], ins[j]
		soft, _ := bfvMulBound(k, a, b)
		if soft > 0.2 {
			continue
		}
		x, y := as[i], bs[j]
		mode := c.Intn(4)
		var x1, x2, y1, y2 *mkrlwe.HoistedCiphertext
		if mode&1 != 0 {
			x1, x2 = x.h1, x.h2
		}
		if mode&2 != 0 {
			y1, y2 = y.h1, y.h2
		}
		ids := Union(a.ids, b.ids)
		c.Logf("hoisted product %v * %v, forms given: first %v second %v", a.ids, b.ids, x1 != nil, y1 != nil)
		out := dirtyBFV(c, k, ids)
		ks.MulAndRelinBFVHoisted(x.ct, y.ct, x1, x2, y1, y2, k.RlkSet, out.Ciphertext)
		want := mulMsg(a.msg, b.msg, k.T)
		checkBFV(c, k, "MulAndRelinBFVHoisted", out, ids, want, soft)
		if x.changed() || y.changed() {
			c.Fatal("input-changed", "the product changed the hoisted forms it was given")
		}
		dir := dirtyBFV(c, k, ids)
		ks.MulAndRelinBFV(x.ct, y.ct, k.RlkSet, dir.Ciphertext)
		checkBFV(c, k, "MulAndRelinBFV", dir, ids, want, soft)
		top := k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet)
		checkBFV(c, k, "MulRelinNew", top, ids, want, soft)
		c.Eval("bfv/%s/ov%s/mode%d/sq%v", spec.Shape(), overlap(a.ids, b.ids), mode, i == j)
		if c.Coin(1, 2) {
			// the external product alone: same digits, same result up to the rounding unit
			id := Pick(c.Rng, keys(a.ids)...)
			rk := k.RlkSet.Value[id]
			p, q := k.R.NewPoly(), k.R.NewPoly()
			ks.ExternalProductBFVHoisted(level, x.h1.Value[id], x.h2.Value[id], rk.Value[0].Value[0], rk.Value[1].Value[0], p)
			ks.ExternalProductBFV(level, x.ct.Value[id], rk.Value[0].Value[0], rk.Value[1].Value[0], q)
			if d := NormInf(k.R, level, SubPoly(k.R, level, p, q)); d > 1 {
				c.Fatal("differs", "ExternalProductBFVHoisted and ExternalProductBFV differ by %g", d)
			}
			c.Eval("bfv-ext/%s", spec.Shape())
		}
	}
}

// ---------------------------------------------------------------- C12

func rotRows(m []int64, k int) []int64 {
	n := len(m)
	h := n / 2
	o := make([]int64, n)
	for i := 0; i < h; i++ {
		j := ((i+k)%h + h) % h
		o[i], o[h+i] = m[j], m[h+j]
	}
	return o
}

func swapRows(m []int64) []int64 {
	h := len(m) / 2
	return append(append([]int64{}, m[h:]...), m[:h]...)
}

func runC12(c *Case) {
	spec := bspecFor(c, c.Index == 1, BFVOpt{MinBits: 40, MinQ: 1, Big: true})
	np := Parties(c.Rng, spec, 1, 4)
	if c.Index == 1 {
		np = 2
	}
	k := NewBFV(c, spec, np)
	h := k.N / 2
	var custom []int
	for i := c.Intn(3); i > 0; i-- {
		idx := c.Range(1, h-1)
		if _, in := k.P.CRS[idx]; !in {
			k.P.AddCRS(idx)
			custom = append(custom, idx)
		}
	}
	q, t := qf(k), float64(k.T)
	rounds := c.Range(4, 8)
	if k.N > 4096 {
		rounds = 3
	}
	a := makeBInput(c, k, Subset(c.Rng, k.IDs))
	for i := 0; i < rounds; i++ {
		if i > 0 && startOver(c, k.N, k.IDs, k.Renew) {
			a = makeBInput(c, k, Subset(c.Rng, k.IDs))
		}
		if c.Coin(1, 2) {
			if in := makeBInput(c, k, Subset(c.Rng, k.IDs)); c.Coin(1, 2) {
				reloadB(a, in)
			} else {
				a = in
			}
		}
		level := k.P.MaxLevel()
		before := snapRLWE(a.ct.Ciphertext)
		ph := Phase(k.R, a.ct.Ciphertext, k.S)
		var out *mkbfv.Ciphertext
		var want []int64
		var exact *ring.Poly
		var bound float64
		what := ""
		if c.Coin(1, 4) {
			k.NeedConj()
			out = k.Eval.ConjugateNew(a.ct, k.CjkSet)
			want = swapRows(a.msg)
			bound = k.Noise.Switch(level, len(a.ids)) + 1
			exact = Automorphism(k.R, level, ph, uint64(2*k.N-1))
			what = "ConjugateNew"
			c.Logf("conjugate %v", a.ids)
			c.Eval("conj/%s/parties%d", spec.Shape(), len(a.ids))
			if set, owner := conjSetWithout(c, k.CjkSet, a.ids); set != nil && c.Coin(1, 3) {
				if did, _ := Panics(func() { k.Eval.ConjugateNew(a.ct, set) }); !did {
					c.Fatal("missing-key", "conjugating a ciphertext of %v without the key of %q gave a result", a.ids, owner)
				}
				c.Eval("missing-conj/%s/parties%d", spec.Shape(), len(a.ids))
			}
		} else {
			idx := randRot(c, k.N)
			if len(custom) > 0 && c.Coin(1, 3) {
				idx = Pick(c.Rng, custom...) - c.Intn(2)*h
				if c.Coin(1, 6) {
					idx = farRot(c, idx)
				}
			}
			k.NeedRot(idx)
			steps := RotSteps(k.P.Parameters, idx)
			out = k.Eval.RotateNew(a.ct, idx, k.RtkSet)
			want = rotRows(a.msg, idx)
			bound = float64(steps)*k.Noise.Switch(level, len(a.ids)) + 1
			exact = Automorphism(k.R, level, ph, GaloisRot(k.N, idx))
			what = "RotateNew"
			c.Logf("rotate %v by %d (%d key switches)", a.ids, idx, steps)
			if set, owner, r := rotSetWithout(c, k.P.Parameters, k.RtkSet, a.ids, idx); set != nil && c.Coin(1, 3) {
				if did, _ := Panics(func() { k.Eval.RotateNew(a.ct, idx, set) }); !did {
					c.Fatal("missing-key", "rotating a ciphertext of %v by %d without the key of %q for %d gave a result", a.ids, idx, owner, r)
				}
				c.Eval("missing-rot/%s/parties%d/steps%d", spec.Shape(), len(a.ids), steps)
			}
			c.Eval("rot/%s/parties%d/steps%d/sgn%d/wrap%v", spec.Shape(), len(a.ids), steps, sgn(float64(idx)), idx >= h || idx <= -h)
		}
		if d := before.diffRLWE(a.ct.Ciphertext); d != "" {
			c.Fatal("input-changed", "%s changed its input: %s", what, d)
		}
		if a.rel+t*bound/q > 0.25 {
			continue
		}
		d := NormInf(k.R, level, SubPoly(k.R, level, Phase(k.R, out.Ciphertext, k.S), exact))
		c.Stat("switch-noise/bound", d/bound)
		if d > bound {
			c.Fatal("noise", "%s: the phase differs from the exact automorphism by %g, bound %g", what, d, bound)
		}
		rel := checkBFV(c, k, what, out, a.ids, want, a.rel+t*(bound+1)/q)
		a = &binput{ct: out, msg: want, ids: a.ids, rel: rel}
	}
}

func init() {
	Register(&Prop{ID: "C09", Quick: 900, Thorough: 18000, MinEvals: 300, Run: runC09,
		Rule:        "one evaluation = one encryption through a random entry point, decrypted exactly and with its noise measured; distinct = (parameter shape, entry point, domain, size of t)",
		Assumptions: []string{"message slots in [-t/2, t/2], t an NTT prime; the modulus leaves room for the fresh noise"}})
	Register(&Prop{ID: "C10", Quick: 1200, Thorough: 24000, MinEvals: 400, Run: runC10,
		Rule: "one evaluation = one AddNew/SubNew whose phase must be exactly the sum and whose decryption must be exact; distinct = (parameter shape, operation, party overlap, same operand)"})
	Register(&Prop{ID: "C11", Quick: 1200, Thorough: 24000, MinEvals: 150, Run: runC11,
		Rule:        "one evaluation = one product, decrypted exactly and with its noise below the predicted bound; distinct = (parameter shape, party overlap, multiplicative depth, squaring)",
		Assumptions: []string{"number of Q primes a multiple of alpha (known finding otherwise); QMul about as large as Q or larger; products whose predicted noise fits"}})
	Register(&Prop{ID: "C12", Quick: 800, Thorough: 16000, MinEvals: 300, Run: runC12,
		Rule: "one evaluation = one RotateNew or ConjugateNew compared with the exact automorphism of the phase and the permuted message; distinct = (operation, parameter shape, parties, key switches, index class)"})
}
