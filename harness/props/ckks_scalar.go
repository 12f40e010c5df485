package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// snapshot of a ciphertext, to see whether an operation changed it.
type snap struct {
	scale float64
	val   map[string][][]uint64
	ntt   map[string]bool
}

func snapRLWE(ct *mkrlwe.Ciphertext) *snap {
	s := &snap{val: map[string][][]uint64{}, ntt: map[string]bool{}}
	for id, p := range ct.Value {
		s.val[id] = copyLimbs(p.Coeffs)
		s.ntt[id] = p.IsNTT
	}
	return s
}

func snapCT(ct *mkckks.Ciphertext) *snap {
	s := snapRLWE(ct.Ciphertext)
	s.scale = ct.Scale
	return s
}

func copyLimbs(v [][]uint64) [][]uint64 {
	o := make([][]uint64, len(v))
	for i := range v {
		o[i] = append([]uint64{}, v[i]...)
	}
	return o
}

// diff describes the first difference to a ciphertext, or "".
func (s *snap) diffRLWE(ct *mkrlwe.Ciphertext) string {
	if len(ct.Value) != len(s.val) {
		return fmt.Sprintf("it has %d components instead of %d", len(ct.Value), len(s.val))
	}
	for id, v := range s.val {
		p := ct.Value[id]
		if p == nil {
			return fmt.Sprintf("component %q is gone", id)
		}
		if p.IsNTT != s.ntt[id] {
			return fmt.Sprintf("component %q: IsNTT became %v", id, p.IsNTT)
		}
		if d := diffLimbs(v, p.Coeffs); d != "" {
			return fmt.Sprintf("component %q: %s", id, d)
		}
	}
	return ""
}

func diffLimbs(a, b [][]uint64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d limbs instead of %d", len(b), len(a))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return fmt.Sprintf("limb %d has %d coefficients instead of %d", i, len(b[i]), len(a[i]))
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return fmt.Sprintf("limb %d coefficient %d was %d, is %d", i, j, a[i][j], b[i][j])
			}
		}
	}
	return ""
}

func (s *snap) diff(ct *mkckks.Ciphertext) string {
	if ct.Scale != s.scale {
		return fmt.Sprintf("scale was %g, is %g", s.scale, ct.Scale)
	}
	return s.diffRLWE(ct.Ciphertext)
}

// toNTT converts the components of a ciphertext (oracle code).
func toNTT(k *CKKS, ct *mkckks.Ciphertext) {
	for _, p := range ct.Value {
		if !p.IsNTT {
			k.R.NTTLvl(ct.Level(), p, p)
			p.IsNTT = true
		}
	}
}

// ---------------------------------------------------------------- C07

func randConst(c *Case) (val interface{}, re, im float64, kind string) {
	frac := func() float64 {
		switch c.Intn(8) {
		case 0:
			return 0
		case 1:
			return math.Ldexp(c.Sym(1), -c.Range(1, 20))
		case 2:
			return c.Sym(1e6)
		case 3:
			return float64(c.Range(-1000, 1000)) + 0.5
		case 4:
			return Pick(c.Rng, 1.0, -1.0, 2, -2, 0.5, -0.5)
		case 5:
			return float64(c.Range(-1<<20, 1<<20))
		default:
			return c.Sym(10)
		}
	}
	switch c.Intn(6) {
	case 0:
		v := c.Uint64() >> uint(c.Range(12, 63))
		return v, float64(v), 0, "uint64"
	case 1:
		v := int64(c.Uint64()) >> uint(c.Range(12, 63))
		return v, float64(v), 0, "int64"
	case 2:
		v := int(int64(c.Uint64()) >> uint(c.Range(12, 63)))
		return v, float64(v), 0, "int"
	case 3:
		v := frac()
		return v, v, 0, "float64"
	default:
		re, im := frac(), frac()
		if c.Coin(1, 4) {
			re = 0
		}
		if c.Coin(1, 6) {
			im = 0
		}
		return complex(re, im), re, im, "complex128"
	}
}

// nearestInt is round(v * n) for a float v and an integer n, exactly.
func nearestInt(v, n float64) *big.Int {
	x := new(big.Float).SetPrec(300).SetFloat64(v)
	x.Mul(x, new(big.Float).SetPrec(300).SetFloat64(n))
	if v < 0 {
		x.Sub(x, big.NewFloat(0.5))
	} else {
		x.Add(x, big.NewFloat(0.5))
	}
	z, _ := x.Int(nil)
	return z
}

func isInt(f float64) bool { return f == math.Trunc(f) }

func monomialHalf(r *ring.Ring, level int, p *ring.Poly) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	h := r.N / 2
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := 0; j < r.N; j++ {
			v := p.Coeffs[i][j] % q
			if j+h >= r.N {
				o.Coeffs[i][j+h-r.N] = (q - v) % q
			} else {
				o.Coeffs[i][j+h] = v
			}
		}
	}
	return o
}

func runC07(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 4)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	rounds := c.Range(4, 8)
	if k.N > 4096 {
		rounds = 3
	}
	var last *ckks.Plaintext
	for i := 0; i < rounds; i++ {
		a := oneInput(c, k)
		if c.Coin(1, 3) {
			mulPtxt(c, k, a, &last)
			continue
		}
		val, re, im, kind := randConst(c)
		ntt := c.Coin(1, 3)
		if ntt {
			toNTT(k, a.ct)
		}
		before := snapCT(a.ct)
		level := a.ct.Level()
		scale := a.ct.Scale
		mode := Pick(c.Rng, "in-place", "in-place", "other", "lower")
		out := a.ct
		if mode != "in-place" {
			lv := level
			if mode == "lower" {
				lv = c.Range(0, level)
			}
			out = mkckks.NewCiphertext(k.P, NewIDs(keys(a.ids)...), lv, c.LogUniform(1, 1e9))
			for _, p := range out.Value {
				p.IsNTT = ntt
				for i := range p.Coeffs {
					for j := range p.Coeffs[i] {
						p.Coeffs[i][j] = c.Uint64() % k.R.Modulus[i]
					}
				}
			}
			level = lv
		}
		c.Logf("round %d: level %d ntt=%v %s const %T %v", i, level, ntt, mode, val, val)
		k.Eval.MultByConst(a.ct, val, out)
		CheckShape(c, "MultByConst", out.Ciphertext, a.ids, level)
		n := 1.0
		if !isInt(re) || !isInt(im) {
			n = float64(k.R.Modulus[level])
		}
		if !relClose(out.Scale, scale*n, 1e-12) {
			c.Fatal("scale", "MultByConst(%v): scale %g, expected %g (input scale %g)", val, out.Scale, scale*n, scale)
		}
		if mode != "in-place" {
			if d := before.diff(a.ct); d != "" {
				c.Fatal("input-changed", "MultByConst changed its input: %s", d)
			}
		}
		zr, zi := nearestInt(re, n), nearestInt(im, n)
		want := AddPoly(k.R, level, ScalePoly(k.R, level, a.phase, zr), monomialHalf(k.R, level, ScalePoly(k.R, level, a.phase, zi)))
		// float arithmetic on the scaled constant: one unit plus a relative 2^-50
		cm := math.Abs(re)*n + math.Abs(im)*n
		eps := 0.0
		if n > 1 || cm > 1<<52 {
			eps = 2 + cm*math.Ldexp(1, -50)
		}
		ph := NormInf(k.R, level, CoeffPoly(k.R, level, a.phase))
		bound := eps*ph + 0.5
		d := NormInf(k.R, level, SubPoly(k.R, level, k.Phase(out), want))
		if bound > 1 {
			c.Stat("const-error/bound", d/bound)
		}
		if d > bound {
			c.Fatal("result", "MultByConst(%T %v) at level %d (NTT %v): the phase differs from the exact product by %g, bound %g", val, val, level, ntt, d, bound)
		}
		// slots
		z := complex(re, im)
		if a.msg != nil {
			exp := make([]complex128, len(a.msg))
			for j := range exp {
				exp[j] = a.msg[j] * z
			}
			amp := math.Abs(re) + math.Abs(im) + 2/n
			tot := (MaxAbs(a.msg)*amp*scale + a.err*amp) * n * 16
			if tot < modulusOf(k, level) {
				tol := k.SlotTol(a.err*amp+bound/n, scale, MaxAbs(a.msg)*amp) + 4*MaxAbs(a.msg)/n*b2f(n > 1)
				checkDecode(c, k, "MultByConst", out, exp, tol)
			}
		}
		c.Eval("const/%s/%s/%s/l%d/ntt%v/int%v/re%v,im%v", spec.Shape(), kind, mode, level, ntt, n == 1, sgn(re), sgn(im))
	}
}

func sgn(f float64) int {
	if f < 0 {
		return -1
	} else if f > 0 {
		return 1
	}
	return 0
}

func mulPtxt(c *Case, k *CKKS, a *input, last **ckks.Plaintext) {
	level := a.ct.Level()
	encoder := ckks.NewEncoder(k.CP)
	scale := k.P.Scale()
	if c.Coin(1, 3) {
		scale = c.LogUniform(1024, k.P.Scale()*4)
	}
	room := modulusOf(k, level) / (a.ct.Scale * scale * 64 * (1 + MaxAbs(a.msg)))
	lim := math.Min(1000, math.Max(1e-4, room))
	m := make([]complex128, k.P.Slots())
	FillSlots(c.Rng, m, lim)
	ptLevel := c.Range(level, k.P.MaxLevel())
	pt := *last
	if pt != nil && pt.Level() >= level && c.Coin(1, 2) {
		// the object of the round before, filled anew
		ptLevel, pt.Scale = pt.Level(), scale
		encoder.Encode(pt, m, k.P.LogSlots())
	} else if scale == k.P.Scale() && c.Coin(1, 2) {
		msg := mkckks.NewMessage(k.P)
		copy(msg.Value, m)
		pt = k.Enc.EncodeMsgNew(msg)
		ptLevel = k.P.MaxLevel()
	} else {
		pt = ckks.NewPlaintext(k.CP, ptLevel, scale)
		encoder.Encode(pt, m, k.P.LogSlots())
	}
	*last = pt
	c.Logf("MulPtxtNew level %d plaintext level %d scale 2^%.3f", level, ptLevel, math.Log2(scale))
	before := snapCT(a.ct)
	ptBefore := copyLimbs(pt.Value.Coeffs)
	out := k.Eval.MulPtxtNew(a.ct, pt)
	if d := before.diff(a.ct); d != "" {
		c.Fatal("input-changed", "MulPtxtNew changed its ciphertext: %s", d)
	}
	if d := diffLimbs(ptBefore, pt.Value.Coeffs); d != "" {
		c.Fatal("input-changed", "MulPtxtNew changed its plaintext: %s", d)
	}
	CheckShape(c, "MulPtxtNew", out.Ciphertext, a.ids, out.Level())
	rescaleChecks(c, k, "MulPtxtNew", out, level, a.ct.Scale*scale, k.P.Scale())
	l := out.Level()
	E := MulPoly(k.R, level, a.phase, &ring.Poly{Coeffs: ptBefore[:level+1]})
	want := DivRoundPoly(k.R, level, l, E)
	bound := 0.5
	for i := level; i > l; i-- {
		bound = bound/float64(k.R.Modulus[i]) + k.Noise.RoundMax(k.L1(out))
	}
	bound++
	d := NormInf(k.R, l, SubPoly(k.R, l, k.Phase(out), want))
	c.Stat("ptxt-error/bound", d/bound)
	if d > bound {
		c.Fatal("result", "MulPtxtNew: the phase differs from the exact rounded product by %g, bound %g (level %d -> %d)", d, bound, level, l)
	}
	if a.msg != nil {
		exp := make([]complex128, len(a.msg))
		for j := range exp {
			exp[j] = a.msg[j] * m[j]
		}
		m0, m1 := MaxAbs(a.msg), MaxAbs(m)
		s2 := 2 * float64(k.P.Slots())
		e1 := a.err * s2 / a.ct.Scale
		e2 := 1 * s2 / scale
		tol := 2*(e1*(m1+e2)+e2*m0) + k.SlotTol(bound, out.Scale, (m0+1)*(m1+1))
		if (m0*m1+tol)*out.Scale*8 < modulusOf(k, l) && (m0*m1+tol)*a.ct.Scale*scale*8 < modulusOf(k, level) {
			checkDecode(c, k, "MulPtxtNew", out, exp, tol)
		}
	}
	c.Eval("ptxt/%s/l%d/ptl%d/drop%d", k.Spec.Shape(), level, ptLevel, level-l)
}

// ---------------------------------------------------------------- C08

// scribble overwrites a ciphertext: coefficients and the set of parties.
func scribble(c *Case, k *CKKS, ct *mkckks.Ciphertext) {
	for _, p := range ct.Value {
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = (p.Coeffs[i][j] + 1 + uint64(j)) % k.R.Modulus[i]
			}
		}
		p.Coeffs = p.Coeffs[:1]
	}
	for id := range ct.Value {
		if id != "0" {
			delete(ct.Value, id)
			break
		}
	}
	ct.Scale++
}

func runC08(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 4)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	rounds := c.Range(5, 10)
	if k.N > 4096 {
		rounds = 4
	}
	max := k.P.MaxLevel()
	for i := 0; i < rounds; i++ {
		level := c.Range(0, max)
		a := makeInput(c, k, k.Subset(), level, k.P.Scale(), math.Min(k.MaxSlot(level, k.P.Scale(), 16), 100))
		before := snapCT(a.ct)
		if c.Coin(1, 3) {
			// DropLevel / DropLevelNew
			n := c.Range(0, level)
			if c.Coin(1, 4) {
				// impossible numbers, also after a drop (what was dropped is still in memory)
				n = level + c.Range(1, 3)
				if c.Coin(1, 3) {
					m := c.Range(0, level)
					k.Eval.DropLevel(a.ct, m)
					before = snapCT(a.ct)
					n = Pick(c.Rng, -1, -m-1, -maxi(m, 1), level-m+1)
				}
				fresh := c.Coin(1, 2)
				did, _ := Panics(func() {
					if fresh {
						k.Eval.DropLevelNew(a.ct, n)
					} else {
						k.Eval.DropLevel(a.ct, n)
					}
				})
				if !did {
					c.Fatal("not-refused", "dropping %d levels of a ciphertext of level %d gave a result", n, a.ct.Level())
				}
				if d := before.diff(a.ct); d != "" {
					c.Fatal("input-changed", "a refused drop of %d levels changed the ciphertext: %s", n, d)
				}
				c.Eval("drop-refused/%s/l%d/n%d", spec.Shape(), level, n)
				continue
			}
			out := a.ct
			if c.Coin(1, 2) {
				out = k.Eval.DropLevelNew(a.ct, n)
				if d := before.diff(a.ct); d != "" {
					c.Fatal("input-changed", "DropLevelNew changed its input: %s", d)
				}
			} else {
				k.Eval.DropLevel(out, n)
			}
			c.Logf("round %d: drop %d levels from %d", i, n, level)
			CheckShape(c, "DropLevel", out.Ciphertext, a.ids, level-n)
			if out.Scale != before.scale {
				c.Fatal("scale", "dropping levels changed the scale from %g to %g", before.scale, out.Scale)
			}
			if !EqualPoly(k.R, level-n, k.Phase(out), a.phase) {
				c.Fatal("result", "dropping %d levels changed the phase", n)
			}
			c.Eval("drop/%s/l%d/n%d", spec.Shape(), level, n)
			if out != a.ct {
				// the two ciphertexts have nothing in common: work on one leaves the other
				x, y, xs := out, a.ct, "result"
				if c.Coin(1, 2) {
					x, y, xs = a.ct, out, "input"
				}
				keep := snapCT(y)
				scribble(c, k, x)
				if d := keep.diff(y); d != "" {
					c.Fatal("shared", "DropLevelNew(%d from %d): writing to the %s changes the other: %s", n, level, xs, d)
				}
				c.Eval("drop-shared/%s/n%d/%s", spec.Shape(), n, xs)
			}
			continue
		}
		// the scale is set freely: only its bookkeeping matters here
		s := c.LogUniform(1, 1e3)
		for j := 0; j <= c.Intn(level+2) && j <= level; j++ {
			s *= float64(k.R.Modulus[level-j])
		}
		min := k.P.Scale()
		switch c.Intn(6) {
		case 0:
			min = c.LogUniform(1e-3, 1e6)
		case 1:
			min = s * c.LogUniform(0.1, 10)
		case 2:
			min = s / float64(k.R.Modulus[level]) * Pick(c.Rng, 1.999, 2.001, 1, 0.5, 0.1)
		case 3:
			s = k.P.Scale() * c.LogUniform(0.3, 3)
		}
		bad := ""
		if c.Coin(1, 8) {
			switch c.Intn(2) {
			case 0:
				min, bad = Pick(c.Rng, 0, -1, math.Inf(-1), -1e-300), "minScale"
			case 1:
				s, bad = 0, "scale 0"
			}
		}
		if level == 0 {
			bad = "level 0"
		}
		a.ct.Scale = s
		before.scale = s
		mode := Pick(c.Rng, "in-place", "other", "new")
		c.Logf("round %d: %s rescale level %d scale 2^%.3f min 2^%.3f %s", i, mode, level, math.Log2(s), math.Log2(math.Abs(min)), bad)
		var out *mkckks.Ciphertext
		var err error
		switch mode {
		case "in-place":
			out = a.ct
			err = k.Eval.Rescale(a.ct, min, a.ct)
		case "other":
			lv := level
			if c.Coin(1, 3) {
				lv = c.Range(level, max)
			}
			out = mkckks.NewCiphertext(k.P, NewIDs(keys(a.ids)...), lv, c.LogUniform(1, 1e9))
			for _, p := range out.Value {
				for i := range p.Coeffs {
					for j := range p.Coeffs[i] {
						p.Coeffs[i][j] = c.Uint64() % k.R.Modulus[i]
					}
				}
			}
			err = k.Eval.Rescale(a.ct, min, out)
		case "new":
			out, err = k.Eval.RescaleNew(a.ct, min)
		}
		if mode != "in-place" || bad != "" {
			if d := before.diff(a.ct); d != "" {
				c.Fatal("input-changed", "Rescale (%s, %s) changed its input: %s", mode, bad, d)
			}
		}
		if bad != "" {
			if err == nil {
				c.Fatal("no-error", "Rescale accepted an invalid call (%s): level %d scale %g minScale %g", bad, level, s, min)
			}
			c.Eval("error/%s/%s", bad, mode)
			continue
		}
		if err != nil {
			c.Fatal("error", "Rescale failed: %v (level %d scale %g minScale %g)", err, level, s, min)
		}
		CheckShape(c, "Rescale", out.Ciphertext, a.ids, out.Level())
		rescaleChecks(c, k, "Rescale", out, level, s, min)
		l := out.Level()
		want := DivRoundPoly(k.R, level, l, a.phase)
		bound := 0.0
		for i := level; i > l; i-- {
			bound = bound/float64(k.R.Modulus[i]) + k.Noise.RoundMax(k.L1(out))
		}
		if l < level {
			bound++
		}
		d := NormInf(k.R, l, SubPoly(k.R, l, k.Phase(out), want))
		c.Stat("rescale-error/bound", d/math.Max(bound, 1))
		if d > bound {
			c.Fatal("result", "Rescale (%s) from level %d to %d: the phase differs from the exact quotient by %g, bound %g", mode, level, l, d, bound)
		}
		if c.Coin(1, 2) && l > 0 {
			// a second rescaling to the same target has nothing to do
			s2 := out.Scale
			if s2/float64(k.R.Modulus[l]) < min/2*(1-1e-9) {
				mid := snapCT(out)
				if e := k.Eval.Rescale(out, min, out); e != nil {
					c.Fatal("error", "second Rescale failed: %v", e)
				}
				if d := mid.diff(out); d != "" {
					c.Fatal("result", "a second Rescale to the same target changed the ciphertext: %s", d)
				}
			}
		}
		c.Eval("rescale/%s/%s/l%d-%d", spec.Shape(), mode, level, l)
	}
}

func init() {
	Register(&Prop{ID: "C07", Quick: 3800, Thorough: 76000, MinEvals: 300, Run: runC07,
		Rule:        "one evaluation = one MultByConst or MulPtxtNew compared with the exact product; distinct = (operation, parameter shape, constant type and signs, receiver, level, domain)",
		Assumptions: []string{"constants of magnitude below 2^52 and of the supported types; plaintexts in the coefficient domain at or above the ciphertext's level, as the encryptor and encoder of this library make them"}})
	Register(&Prop{ID: "C08", Quick: 3800, Thorough: 76000, MinEvals: 400, Run: runC08,
		Rule:        "one evaluation = one Rescale / RescaleNew / DropLevel / DropLevelNew, or one refused call; distinct = (operation, parameter shape, receiver, levels before and after)",
		Assumptions: []string{"receivers hold the parties of the input at its level or above"}})
}
