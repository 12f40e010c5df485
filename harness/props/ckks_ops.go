package props

import (
	"math"
	"math/big"
	"math/cmplx"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkckks"

	. "verif/harness/core"
)

// input is a ciphertext with what it encrypts.
type input struct {
	ct    *mkckks.Ciphertext
	msg   []complex128
	ids   map[string]bool
	phase *ring.Poly
	err   float64 // coefficient error of phase against the message
}

// makeInput builds a ciphertext over random parties, at a level and scale.
func makeInput(c *Case, k *CKKS, ids []string, level int, scale, maxAbs float64) *input {
	encoder := ckks.NewEncoder(k.CP)
	in := &input{ids: setOf(ids)}
	for i, id := range ids {
		m := mkckks.NewMessage(k.P)
		FillSlots(c.Rng, m.Value, maxAbs/float64(len(ids)))
		pt := ckks.NewPlaintext(k.CP, k.P.MaxLevel(), scale)
		encoder.Encode(pt, m.Value, k.P.LogSlots())
		set := NewIDs(id)
		ct := mkckks.NewCiphertext(k.P, set, k.P.MaxLevel(), scale)
		k.Enc.EncryptPtxt(pt, k.PK[id], ct)
		if i == 0 {
			in.ct, in.msg = ct, append([]complex128{}, m.Value...)
		} else {
			in.ct = SumCT(k.R, in.ct, ct)
			for j := range in.msg {
				in.msg[j] += m.Value[j]
			}
		}
		in.err += k.Noise.FreshMax() + 1
	}
	if level < in.ct.Level() {
		in.ct = TruncCT(k.R, in.ct, level)
	}
	in.phase = k.Phase(in.ct)
	return in
}

// trivialParts makes some party components of a ciphertext zero or the constant
// component zero: still a valid ciphertext, of an unusual shape.
func trivialParts(c *Case, k *CKKS, in *input) {
	for id := range in.ct.Value {
		if c.Coin(1, 2) {
			for i := range in.ct.Value[id].Coeffs {
				for j := range in.ct.Value[id].Coeffs[i] {
					in.ct.Value[id].Coeffs[i][j] = 0
				}
			}
		}
	}
	in.phase = k.Phase(in.ct)
	in.msg = nil
}

func overlap(a, b map[string]bool) string {
	both, onlyA, onlyB := 0, 0, 0
	for x := range a {
		if b[x] {
			both++
		} else {
			onlyA++
		}
	}
	for x := range b {
		if !a[x] {
			onlyB++
		}
	}
	f := func(n int) string {
		if n > 2 {
			return "m"
		}
		return string(rune('0' + n))
	}
	return f(onlyA) + f(both) + f(onlyB)
}

// bigEvery is how often a property is tried with a large ring.
const bigEvery = 97

func specFor(c *Case, big bool) *Spec {
	if big {
		return bigSpec(c, 4)
	}
	if logN := hugeN(c); logN != 0 {
		spec := bigSpecN(c, 2, logN)
		spec.P = spec.P[:2]
		return spec
	}
	if c.Index%bigEvery == 0 {
		// a large ring with a short chain: what depends on the size of the ring alone
		spec := bigSpec(c, c.Range(1, 3))
		spec.LogN = 13
		spec.LogSlots = mini(spec.LogSlots, 12)
		return spec
	}
	return RandCKKSSpec(c.Rng, CKKSOpt{Big: true})
}

func relClose(a, b, tol float64) bool { return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b)) }

// ---------------------------------------------------------------- C02

func runC02(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 5)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	max := k.P.MaxLevel()
	rounds := c.Range(4, 8)
	var seenA, seenB recycler
	for i := 0; i < rounds; i++ {
		l0, l1 := c.Range(0, max), c.Range(0, max)
		if c.Coin(1, 2) {
			l1 = l0
		}
		s0 := k.P.Scale()
		s1 := s0
		ratio := 1.0
		kind := Pick(c.Rng, "equal", "equal", "drift", "int", "int", "near", "pow2")
		switch kind {
		case "drift":
			s1 = s0 * (1 + c.Sym(1e-7))
		case "int", "near":
			ratio = float64(c.Range(2, 5000))
			if c.Coin(1, 3) {
				ratio = 2
			}
		case "pow2":
			ratio = math.Ldexp(1, c.Range(1, Pick(c.Rng, 30, 62, 100)))
		}
		if ratio > 1 {
			// keep both scales exactly representable so that the ratio is exactly an integer
			// (and odd: lattigo's encoder is wrong for coefficients of exactly 2^64)
			s0 = math.Ldexp(float64(2*c.Range(256, 511)+1), c.Range(7, 21))
			s1 = s0 * ratio
			if kind == "near" {
				s1 *= 1 + c.Sym(1e-7) // as rescaling leaves it
			}
		}
		if c.Coin(1, 2) {
			s0, s1 = s1, s0
		}
		lv := mini(l0, l1)
		big := math.Max(s0, s1)
		lim := math.Min(k.MaxSlot(lv, big, 16), 1e4)
		a := makeInput(c, k, k.Subset(), l0, s0, lim)
		b := makeInput(c, k, k.Subset(), l1, s1, lim)
		if c.Coin(1, 8) {
			trivialParts(c, k, b)
		}
		seenA.input(c, a)
		seenB.input(c, b)
		if c.Coin(1, 10) {
			b, s1, l1, lv, big, ratio = a, s0, l0, l0, s0, 1
		}
		sub := c.Coin(1, 2)
		c.Logf("round %d: sub=%v parties %v / %v levels %d %d scales 2^%.3f 2^%.3f (%s)", i, sub, a.ids, b.ids, l0, l1, math.Log2(s0), math.Log2(s1), kind)
		var out *mkckks.Ciphertext
		if sub {
			out = k.Eval.SubNew(a.ct, b.ct)
		} else {
			out = k.Eval.AddNew(a.ct, b.ct)
		}
		CheckShape(c, "add/sub", out.Ciphertext, Union(a.ids, b.ids), lv)
		if out.Scale != big {
			c.Fatal("scale", "add/sub of scales %g and %g gives scale %g", s0, s1, out.Scale)
		}
		x, y := a.phase, b.phase
		k0, k1 := 1.0, 1.0
		if ratio > 1 {
			if s0 < s1 {
				k0 = ratio
				x = ScalePoly(k.R, lv, x, big2(ratio))
			} else {
				k1 = ratio
				y = ScalePoly(k.R, lv, y, big2(ratio))
			}
		}
		var want *ring.Poly
		if sub {
			want = SubPoly(k.R, lv, x, y)
		} else {
			want = AddPoly(k.R, lv, x, y)
		}
		if d := NormInf(k.R, lv, SubPoly(k.R, lv, k.Phase(out), want)); d > 4 {
			c.Fatal("result", "add/sub: the result's phase differs from the exact one by %g", d)
		}
		if c.Coin(1, 2) {
			// the result as an operand
			p := a
			if a.ct.Scale != big {
				p = b
			}
			r, ph, pw := out, k.Phase(out), p.phase
			for j := c.Intn(4); j > 0; j-- {
				r, ph = k.Eval.AddNew(r, r), AddPoly(k.R, lv, ph, ph)
			}
			var again *mkckks.Ciphertext
			how := Pick(c.Rng, "p-r", "r-p", "p+r", "r+r")
			switch how {
			case "p-r":
				again, want = k.Eval.SubNew(p.ct, r), SubPoly(k.R, lv, pw, ph)
			case "r-p":
				again, want = k.Eval.SubNew(r, p.ct), SubPoly(k.R, lv, ph, pw)
			case "p+r":
				again, want = k.Eval.AddNew(p.ct, r), AddPoly(k.R, lv, pw, ph)
			case "r+r":
				again, want = k.Eval.AddNew(r, r), AddPoly(k.R, lv, ph, ph)
			}
			CheckShape(c, "add/sub of a result", again.Ciphertext, Union(a.ids, b.ids), lv)
			if d := NormInf(k.R, lv, SubPoly(k.R, lv, k.Phase(again), want)); d > 0 || again.Scale != big {
				c.Fatal("result", "add/sub of a result (%s): the phase differs from the exact one by %g, scale %g", how, d, again.Scale)
			}
			c.Eval("%s/chained/%s/%s", spec.Shape(), how, kind)
		}
		if a.msg != nil && b.msg != nil {
			exp := make([]complex128, len(a.msg))
			for j := range exp {
				if sub {
					exp[j] = a.msg[j] - b.msg[j]
				} else {
					exp[j] = a.msg[j] + b.msg[j]
				}
			}
			e := (a.err*k0 + b.err*k1) + 4
			if e < big*lim { // noise leaves room
				m := MaxAbs(a.msg) + MaxAbs(b.msg)
				checkDecode(c, k, "add/sub", out, exp, k.SlotTol(e, big, m)+1e-6*m*b2f(kind == "drift" || kind == "near"))
			}
		}
		c.Eval("%s/sub%v/ov%s/l%d,%d/%s/%v", spec.Shape(), sub, overlap(a.ids, b.ids), l0, l1, kind, s0 < s1)
	}
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func big2(f float64) *big.Int {
	x, _ := new(big.Float).SetFloat64(f).Int(nil)
	return x
}

// ---------------------------------------------------------------- C03

// rescaleChecks verifies the level / scale bookkeeping of a result that was
// rescaled towards minScale, starting from a level and scale.
func rescaleChecks(c *Case, k *CKKS, what string, out *mkckks.Ciphertext, level int, scale, minScale float64) {
	l := out.Level()
	if l > level {
		c.Fatal("level", "%s: result level %d above the input level %d", what, l, level)
	}
	s := scale
	for i := level; i > l; i-- {
		if s/float64(k.R.Modulus[i]) < minScale/2*(1-1e-9) {
			c.Fatal("level", "%s: rescaled below the target: dropped modulus %d although the scale 2^%.3f would become less than half the target 2^%.3f", what, i, math.Log2(s), math.Log2(minScale))
		}
		s /= float64(k.R.Modulus[i])
	}
	if l > 0 && s/float64(k.R.Modulus[l]) >= minScale/2*(1+1e-9) {
		c.Fatal("level", "%s: stopped at level %d with scale 2^%.3f although dividing once more keeps at least half the target 2^%.3f", what, l, math.Log2(s), math.Log2(minScale))
	}
	if !relClose(out.Scale, s, 1e-9) {
		c.Fatal("scale", "%s: scale %.17g, expected %.17g at level %d", what, out.Scale, s, l)
	}
}

// checkMul verifies a product at phase level and, if meaningful, at slot level.
func checkMul(c *Case, k *CKKS, what string, a, b *input, out *mkckks.Ciphertext) {
	level := mini(a.ct.Level(), b.ct.Level())
	ids := Union(a.ids, b.ids)
	CheckShape(c, what, out.Ciphertext, ids, out.Level())
	rescaleChecks(c, k, what, out, level, a.ct.Scale*b.ct.Scale, k.P.Scale())
	l := out.Level()
	E := MulPoly(k.R, level, a.phase, b.phase)
	want := DivRoundPoly(k.R, level, l, E)
	n := len(ids)
	bound := k.Noise.MulPre(level, n)
	L1 := k.L1(out)
	for i := level; i > l; i-- {
		bound = bound/float64(k.R.Modulus[i]) + k.Noise.RoundMax(L1)
	}
	bound = bound*2 + 2
	d := NormInf(k.R, l, SubPoly(k.R, l, k.Phase(out), want))
	c.Stat("mul-noise/bound", d/bound)
	if d > bound {
		c.Fatal("noise", "%s: the result differs from the exact product by %g, bound %g (level %d -> %d, %d parties)", what, d, bound, level, l, n)
	}
	if a.msg != nil && b.msg != nil {
		exp := make([]complex128, len(a.msg))
		for j := range exp {
			exp[j] = a.msg[j] * b.msg[j]
		}
		m0, m1 := MaxAbs(a.msg), MaxAbs(b.msg)
		N := float64(k.N)
		// input noise times the other message, in slots
		tol := a.err*2*float64(k.P.Slots())/a.ct.Scale*(m1+1) + b.err*2*float64(k.P.Slots())/b.ct.Scale*(m0+1)
		tol = tol*2 + k.SlotTol(bound, out.Scale, (m0+1)*(m1+1))
		_ = N
		if (m0*m1+tol)*out.Scale*8 < modulusOf(k, l) && (m0*m1+tol)*a.ct.Scale*b.ct.Scale*8 < modulusOf(k, level) {
			checkDecode(c, k, what, out, exp, tol)
		}
	}
}

func modulusOf(k *CKKS, level int) float64 {
	q := 1.0
	for i := 0; i <= level; i++ {
		q *= float64(k.R.Modulus[i])
	}
	return q
}

// pairInputs draws the operands of a product.
func pairInputs(c *Case, k *CKKS) (a, b *input) {
	max := k.P.MaxLevel()
	l0, l1 := c.Range(0, max), c.Range(0, max)
	switch c.Intn(5) {
	case 0, 1:
		l0, l1 = max, max
	case 2:
		l1 = l0
	}
	s0, s1 := k.P.Scale(), k.P.Scale()
	if c.Coin(1, 4) {
		s1 = s0 * c.LogUniform(0.7, 1.5)
	}
	lv := mini(l0, l1)
	room := modulusOf(k, lv) / (s0 * s1) / 64
	lim := math.Min(math.Sqrt(math.Max(room, 1e-3)), 1000)
	if c.Coin(1, 2) && lim > 1 {
		lim = 1
	}
	a = makeInput(c, k, k.Subset(), l0, s0, lim)
	b = makeInput(c, k, k.Subset(), l1, s1, lim)
	if c.Coin(1, 6) {
		b = a
	} else if c.Coin(1, 10) {
		trivialParts(c, k, b)
	}
	return
}

func runC03(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 5)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	k.NeedRlk()
	rounds := c.Range(3, 6)
	if k.N > 4096 {
		rounds = 2
	}
	var seen recycler
	for i := 0; i < rounds; i++ {
		if i > 0 {
			startOver(c, k.N, k.IDs, k.Renew)
		}
		a, b := pairInputs(c, k)
		seen.input(c, a)
		c.Logf("round %d: product of %v level %d scale 2^%.3f and %v level %d scale 2^%.3f same=%v", i, a.ids, a.ct.Level(), math.Log2(a.ct.Scale), b.ids, b.ct.Level(), math.Log2(b.ct.Scale), a == b)
		out := k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet)
		checkMul(c, k, "MulRelinNew", a, b, out)
		c.Eval("%s/ov%s/l%d,%d/sq%v", spec.Shape(), overlap(a.ids, b.ids), a.ct.Level(), b.ct.Level(), a == b)
	}
	if c.Coin(1, 3) && spec.Family != "big" {
		// the generic (non hoisted) product of the underlying layer
		a, b := pairInputs(c, k)
		lv := mini(a.ct.Level(), b.ct.Level())
		ids := Union(a.ids, b.ids)
		out := mkckks.NewCiphertext(k.P, NewIDs(keys(ids)...), lv, 1)
		kswMul(k, a.ct.Ciphertext, b.ct.Ciphertext, out.Ciphertext)
		want := MulPoly(k.R, lv, a.phase, b.phase)
		d := NormInf(k.R, lv, SubPoly(k.R, lv, k.Phase(out), want))
		bound := 2*k.Noise.MulPre(lv, len(ids)) + 2
		c.Stat("generic-mul-noise/bound", d/bound)
		if d > bound {
			c.Fatal("noise", "mkrlwe MulAndRelin: the result differs from the exact product by %g, bound %g", d, bound)
		}
		c.Eval("generic/%s/ov%s/l%d", spec.Shape(), overlap(a.ids, b.ids), lv)
	}
}

// ---------------------------------------------------------------- C05

func randRot(c *Case, n int) int {
	h := n / 2
	switch c.Intn(10) {
	case 0:
		return 0
	case 9:
		return farRot(c, c.Range(-h, h))
	case 1:
		return 1 << uint(c.Intn(bitsLen(h)))
	case 2:
		return -(1 << uint(c.Intn(bitsLen(h))))
	case 3:
		return c.Range(-h, -1)
	case 4:
		return c.Range(h, 3*h)
	case 5:
		return Pick(c.Rng, h, -h, 2*h, h-1, h+1, -h-1, 3*h-1, -3*h+2, h/2, -h/2)
	case 6:
		return c.Range(-20*n, 20*n)
	default:
		return c.Range(1, h-1)
	}
}

// farRot is an index far away from idx, but equivalent to it for every ring
// degree up to 2^20, or one of the extreme integers.
func farRot(c *Case, idx int) int {
	m := idx % (1 << 20)
	switch c.Intn(6) {
	case 0:
		return m + 1<<uint(c.Range(20, 62))
	case 1:
		return m - 1<<uint(c.Range(20, 62))
	case 2:
		return m + 1<<20*c.Range(-1<<40, 1<<40)
	case 3:
		return m + 1<<31
	case 4:
		return m - 1<<32
	}
	if m < 0 {
		return m + math.MaxInt64 - (1<<20 - 1)
	}
	return m + math.MinInt64
}

func bitsLen(h int) int {
	n := 0
	for 1<<uint(n) < h {
		n++
	}
	return maxi(n, 1)
}

func rotated(m []complex128, k int) []complex128 {
	n := len(m)
	o := make([]complex128, n)
	for i := range o {
		o[i] = m[((i+k)%n+n)%n]
	}
	return o
}

func checkRot(c *Case, k *CKKS, what string, a *input, idx, steps int, out *mkckks.Ciphertext) {
	l := a.ct.Level()
	CheckShape(c, what, out.Ciphertext, a.ids, l)
	if out.Scale != a.ct.Scale {
		c.Fatal("scale", "%s changed the scale from %g to %g", what, a.ct.Scale, out.Scale)
	}
	want := Automorphism(k.R, l, a.phase, GaloisRot(k.N, idx))
	bound := float64(steps)*k.Noise.Switch(l, len(a.ids)) + 1
	d := NormInf(k.R, l, SubPoly(k.R, l, k.Phase(out), want))
	c.Stat("rot-noise/bound", d/bound)
	if d > bound {
		c.Fatal("noise", "%s by %d: the result differs from the exact rotation by %g, bound %g", what, idx, d, bound)
	}
	if a.msg != nil {
		if (MaxAbs(a.msg)*a.ct.Scale+a.err+bound)*8 < modulusOf(k, l) {
			checkDecode(c, k, what, out, rotated(a.msg, idx), k.SlotTol(a.err+bound, a.ct.Scale, MaxAbs(a.msg)))
		}
	}
}

// randScale is the default scale half of the time; results of products and
// constants have any other.
func randScale(c *Case, k *CKKS) float64 {
	switch c.Intn(4) {
	case 0:
		return k.P.Scale() * c.LogUniform(0.1, 10)
	case 1:
		return k.P.Scale() * Pick(c.Rng, 0.5, 2, 1+1e-9, 16)
	}
	return k.P.Scale()
}

func oneInput(c *Case, k *CKKS) *input {
	max := k.P.MaxLevel()
	l := max
	if c.Coin(1, 2) {
		l = c.Range(0, max)
	}
	scale := randScale(c, k)
	lim := math.Min(k.MaxSlot(l, scale, 16), 1e4)
	a := makeInput(c, k, k.Subset(), l, scale, lim)
	if c.Coin(1, 12) {
		trivialParts(c, k, a)
	}
	return a
}

func runC05(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 4)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	h := k.N / 2
	var custom []int
	for i := c.Intn(4); i > 0; i-- {
		idx := c.Range(1, h-1)
		if c.Coin(1, 4) {
			idx = -c.Range(1, h-1)
		} else if c.Coin(1, 8) {
			idx = farRot(c, idx)
		}
		norm := ((idx % h) + h) % h
		if _, in := k.P.CRS[norm]; !in {
			k.P.AddCRS(idx)
			custom = append(custom, norm)
			c.Logf("AddCRS(%d)", idx)
		}
	}
	rounds := c.Range(4, 8)
	if k.N > 4096 {
		rounds = 3
	}
	var seen recycler
	for i := 0; i < rounds; i++ {
		if i > 0 {
			startOver(c, k.N, k.IDs, k.Renew)
		}
		a := oneInput(c, k)
		seen.input(c, a)
		idx := randRot(c, k.N)
		if len(custom) > 0 && c.Coin(1, 3) {
			idx = Pick(c.Rng, custom...)
			if c.Coin(1, 3) {
				idx -= h
			} else if c.Coin(1, 6) {
				idx = farRot(c, idx)
			}
		}
		k.NeedRot(idx)
		steps := RotSteps(k.P.Parameters, idx)
		c.Logf("round %d: rotate %v level %d by %d (%d key switches)", i, a.ids, a.ct.Level(), idx, steps)
		out := k.Eval.RotateNew(a.ct, idx, k.RtkSet)
		checkRot(c, k, "RotateNew", a, idx, steps, out)
		sg := "neg"
		if idx >= h {
			sg = "wrap"
		} else if idx >= 0 {
			sg = "pos"
		}
		c.Eval("%s/parties%d/l%d/%s/steps%d", spec.Shape(), len(a.ids), a.ct.Level(), sg, steps)
		if c.Coin(1, 3) {
			if set, owner, r := rotSetWithout(c, k.P.Parameters, k.RtkSet, a.ids, idx); set != nil {
				before := snapCT(a.ct)
				if did, _ := Panics(func() { k.Eval.RotateNew(a.ct, idx, set) }); !did {
					c.Fatal("missing-key", "rotating a ciphertext of %v by %d without the key of %q for %d gave a result", a.ids, idx, owner, r)
				}
				if d := before.diff(a.ct); d != "" {
					c.Fatal("input-changed", "a refused rotation changed its operand: %s", d)
				}
				c.Eval("%s/missing/parties%d/%s/steps%d", spec.Shape(), len(a.ids), sg, steps)
			}
		}
	}
}

// ---------------------------------------------------------------- C06

func runC06(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 5)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	k.NeedConj()
	rounds := c.Range(4, 8)
	if k.N > 4096 {
		rounds = 2
	}
	var seen recycler
	for i := 0; i < rounds; i++ {
		if i > 0 {
			startOver(c, k.N, k.IDs, k.Renew)
		}
		a := oneInput(c, k)
		seen.input(c, a)
		c.Logf("round %d: conjugate %v level %d", i, a.ids, a.ct.Level())
		out := k.Eval.ConjugateNew(a.ct, k.CjkSet)
		l := a.ct.Level()
		CheckShape(c, "ConjugateNew", out.Ciphertext, a.ids, l)
		if out.Scale != a.ct.Scale {
			c.Fatal("scale", "conjugation changed the scale")
		}
		want := Automorphism(k.R, l, a.phase, uint64(2*k.N-1))
		bound := k.Noise.Switch(l, len(a.ids)) + 1
		d := NormInf(k.R, l, SubPoly(k.R, l, k.Phase(out), want))
		c.Stat("conj-noise/bound", d/bound)
		if d > bound {
			c.Fatal("noise", "conjugation: the result differs from the exact one by %g, bound %g", d, bound)
		}
		if a.msg != nil && (MaxAbs(a.msg)*a.ct.Scale+a.err+bound)*8 < modulusOf(k, l) {
			exp := make([]complex128, len(a.msg))
			for j := range exp {
				exp[j] = cmplx.Conj(a.msg[j])
			}
			checkDecode(c, k, "ConjugateNew", out, exp, k.SlotTol(a.err+bound, a.ct.Scale, MaxAbs(a.msg)))
		}
		c.Eval("%s/parties%d/l%d", spec.Shape(), len(a.ids), l)
		// twice is the identity
		out2 := k.Eval.ConjugateNew(out, k.CjkSet)
		if d := NormInf(k.R, l, SubPoly(k.R, l, k.Phase(out2), a.phase)); d > 2*bound {
			c.Fatal("noise", "conjugating twice differs from the identity by %g, bound %g", d, 2*bound)
		}
		if c.Coin(1, 3) {
			if set, owner := conjSetWithout(c, k.CjkSet, a.ids); set != nil {
				before := snapCT(a.ct)
				if did, _ := Panics(func() { k.Eval.ConjugateNew(a.ct, set) }); !did {
					c.Fatal("missing-key", "conjugating a ciphertext of %v without the key of %q gave a result", a.ids, owner)
				}
				if d := before.diff(a.ct); d != "" {
					c.Fatal("input-changed", "a refused conjugation changed its operand: %s", d)
				}
				c.Eval("%s/missing/parties%d", spec.Shape(), len(a.ids))
			}
		}
	}
}

// ---------------------------------------------------------------- C04

func runC04(c *Case) {
	if c.Index%4 == 3 {
		runC04BFV(c)
		return
	}
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 4)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	k.NeedRlk()
	rounds := c.Range(2, 4)
	if k.N > 4096 {
		rounds = 1
	}
	var seen recycler
	for i := 0; i < rounds; i++ {
		if i > 0 {
			startOver(c, k.N, k.IDs, k.Renew)
		}
		a, b := pairInputs(c, k)
		seen.input(c, a)
		ha, hb := k.Eval.HoistedForm(a.ct), k.Eval.HoistedForm(b.ct)
		if c.Coin(1, 2) {
			// something else in between: hoisted forms must not depend on the evaluator's pools
			z := oneInput(c, k)
			k.Eval.MulRelinNew(z.ct, z.ct, k.RlkSet)
		}
		mode := c.Intn(4)
		h0, h1 := ha, hb
		if mode&1 != 0 {
			h0 = nil
		}
		if mode&2 != 0 {
			h1 = nil
		}
		if c.Coin(1, 3) {
			// hoisted forms of the higher level, ciphertexts since dropped
			drop := func(x *input) *input {
				if x.ct.Level() == 0 {
					return x
				}
				y := &input{ct: TruncCT(k.R, x.ct, c.Range(0, x.ct.Level()-1)), msg: x.msg, ids: x.ids, err: x.err}
				y.phase = k.Phase(y.ct)
				return y
			}
			same := a == b
			if c.Coin(2, 3) {
				a = drop(a)
			}
			if same {
				b = a
			} else if c.Coin(1, 2) {
				b = drop(b)
			}
		}
		c.Logf("round %d: hoisted product of %v level %d and %v level %d, hoisted forms given: %v %v, same=%v", i, a.ids, a.ct.Level(), b.ids, b.ct.Level(), h0 != nil, h1 != nil, a == b)
		reps := c.Range(1, 2)
		for j := 0; j < reps; j++ {
			out := k.Eval.MulRelinHoistedNew(a.ct, b.ct, h0, h1, k.RlkSet)
			checkMul(c, k, "MulRelinHoistedNew", a, b, out)
			dir := k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet)
			if dir.Level() != out.Level() || !relClose(dir.Scale, out.Scale, 1e-12) {
				c.Fatal("differs", "hoisted and direct products differ in level (%d, %d) or scale (%g, %g)", out.Level(), dir.Level(), out.Scale, dir.Scale)
			}
			checkMul(c, k, "MulRelinNew", a, b, dir)
		}
		c.Eval("mul/%s/ov%s/l%d,%d/mode%d/sq%v", spec.Shape(), overlap(a.ids, b.ids), a.ct.Level(), b.ct.Level(), mode, a == b)
		// rotations with the same hoisted form
		h := k.N / 2
		for j := c.Range(1, 3); j > 0; j-- {
			idx := 1 << uint(c.Intn(bitsLen(h)))
			if c.Coin(1, 3) {
				idx = c.Range(1, h-1)
				if _, in := k.P.CRS[idx]; !in {
					k.P.AddCRS(idx)
				}
			}
			arg := idx
			switch c.Intn(6) {
			case 5:
				arg = farRot(c, idx)
			case 0:
				arg = idx - h
			case 1:
				arg = idx + 2*h
			case 2:
				if c.Coin(1, 3) {
					arg = Pick(c.Rng, 0, h, -h)
				}
			}
			k.NeedRot(arg)
			x := a
			hx := ha
			if c.Coin(1, 3) && a.ct.Level() > 0 {
				// hoisted form of the higher level, ciphertext since dropped
				l := c.Range(0, a.ct.Level()-1)
				x = &input{ct: TruncCT(k.R, a.ct, l), msg: a.msg, ids: a.ids, err: a.err}
				x.phase = k.Phase(x.ct)
			}
			out := k.Eval.RotateHoistedNew(x.ct, arg, hx, k.RtkSet)
			checkRot(c, k, "RotateHoistedNew", x, arg, mini(1, RotSteps(k.P.Parameters, arg)), out)
			if set, owner, r := rotSetWithout(c, k.P.Parameters, k.RtkSet, x.ids, arg); set != nil && c.Coin(1, 4) {
				if did, _ := Panics(func() { k.Eval.RotateHoistedNew(x.ct, arg, hx, set) }); !did {
					c.Fatal("missing-key", "the hoisted rotation of a ciphertext of %v by %d without the key of %q for %d gave a result", x.ids, arg, owner, r)
				}
			}
			dir := k.Eval.RotateNew(x.ct, arg, k.RtkSet)
			checkRot(c, k, "RotateNew", x, arg, mini(1, RotSteps(k.P.Parameters, arg)), dir)
			c.Eval("rot/%s/parties%d/l%d-of-%d/neg%v", spec.Shape(), len(x.ids), x.ct.Level(), a.ct.Level(), arg < 0)
		}
	}
}

func init() {
	Register(&Prop{ID: "C02", Quick: 2600, Thorough: 52000, MinEvals: 200, Run: runC02,
		Rule:        "one evaluation = one AddNew/SubNew compared with the exact sum of the inputs' phases; distinct = (parameter shape, op, party overlap class, levels, scale relation)",
		Assumptions: []string{"scales are equal up to drift below 1e-7 or in an integer ratio below 2^62"}})
	Register(&Prop{ID: "C03", Quick: 1800, Thorough: 36000, MinEvals: 150, Run: runC03,
		Rule:        "one evaluation = one product compared with the exact rounded product of the inputs' phases; distinct = (parameter shape, party overlap class, levels, squaring)",
		Assumptions: []string{"the product of the special primes is at least of the order of the squared gadget digit (alpha = PCount/2 primes per digit)"}})
	Register(&Prop{ID: "C04", Quick: 1000, Thorough: 20000, MinEvals: 100, Run: runC04,
		Rule:        "one evaluation = one hoisted operation compared with the exact result and with its direct counterpart; distinct = (operation, parameter shape, overlap, levels, which hoisted forms are given)",
		Assumptions: []string{"hoisted forms are of the same ciphertext at its own level or a higher one"}})
	Register(&Prop{ID: "C05", Quick: 1400, Thorough: 28000, MinEvals: 150, Run: runC05,
		Rule:        "one evaluation = one RotateNew compared with the exact automorphism of the input's phase and with the rotated message; distinct = (parameter shape, parties, level, index class, key switches)",
		Assumptions: []string{"|index| below 20 N; AddCRS is called before the rotation keys of that index are made"}})
	Register(&Prop{ID: "C06", Quick: 1500, Thorough: 30000, MinEvals: 150, Run: runC06,
		Rule: "one evaluation = one ConjugateNew compared with the exact automorphism and the conjugated message; distinct = (parameter shape, parties, level)"})
}
