package props

import (
	"math"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C23

// gctx is one instance of the scheme-independent layer.
type gctx struct {
	p     mkrlwe.Parameters
	r     *ring.Ring
	n     int
	ids   []string
	sk    map[string]*mkrlwe.SecretKey
	pk    map[string]*mkrlwe.PublicKey
	s     map[string]*SK
	kg    *mkrlwe.KeyGenerator
	rlk   *mkrlwe.RelinearizationKeySet
	rtk   *mkrlwe.RotationKeySet
	cjk   *mkrlwe.ConjugationKeySet
	noise *NoiseModel
	rots  map[int]bool
}

func newGctx(c *Case, spec *Spec, np int) *gctx {
	g := &gctx{p: NewRLWEParams(spec), sk: map[string]*mkrlwe.SecretKey{}, pk: map[string]*mkrlwe.PublicKey{}, s: map[string]*SK{}, rots: map[int]bool{}}
	g.r, g.n = g.p.RingQ(), g.p.N()
	g.ids = RandIDs(c.Rng, np)
	g.kg = mkrlwe.NewKeyGenerator(g.p)
	g.rlk, g.rtk, g.cjk = mkrlwe.NewRelinearizationKeyKeySet(g.p), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	g.noise = NewNoiseModel(g.p)
	c.Logf("generic %v gamma %d alpha %d parties=%q", spec, g.p.Gamma(), g.p.Alpha(), g.ids)
	for _, id := range g.ids {
		sk, pk := g.kg.GenKeyPair(id)
		g.sk[id], g.pk[id] = sk, pk
		s, ok, why := ReadSK(g.p, sk)
		if !ok {
			c.Fatal("secret-key", "the secret key of %q: %s", id, why)
		}
		g.s[id] = s
		g.rlk.AddRelinearizationKey(g.kg.GenRelinearizationKey(sk, g.kg.GenSecretKey(id)))
		g.cjk.AddConjugationKey(g.kg.GenConjugationKey(sk))
	}
	return g
}

func (g *gctx) needRot(idx int) {
	if g.rots[idx] {
		return
	}
	g.rots[idx] = true
	for _, id := range g.ids {
		g.rtk.AddRotationKey(g.kg.GenRotationKey(idx, g.sk[id]))
	}
}

// input draws a ciphertext: encryptions of arbitrary polynomials summed, or
// components drawn uniformly, or with extreme residues. All are valid.
func (g *gctx) input(c *Case, level int) *mkrlwe.Ciphertext {
	ids := Subset(c.Rng, g.ids)
	ct := mkrlwe.NewCiphertext(g.p, NewIDs(ids...), level)
	kind := c.Intn(4)
	for _, id := range append(append([]string{}, ids...), "0") {
		p := ct.Value[id]
		switch {
		case kind == 1 && c.Coin(1, 2):
			v := hostileInts(c.Rng, g.n, g.r.Modulus[:level+1], ProdQ(g.r.Modulus, 0, level))
			residues(c.Rng, g.r.Modulus[:level+1], v, p, false)
		case kind == 2 && c.Coin(1, 3):
			// zero
		default:
			randomise(c, g.r.Modulus, p.Coeffs)
		}
	}
	return ct
}

// receiver is a ciphertext for given owners with left-over contents.
func (g *gctx) receiver(c *Case, ids map[string]bool, level int) *mkrlwe.Ciphertext {
	ct := mkrlwe.NewCiphertext(g.p, NewIDs(keys(ids)...), level)
	for _, id := range append(keys(ids), "0") {
		randomise(c, g.r.Modulus, ct.Value[id].Coeffs)
	}
	return ct
}

func (g *gctx) hoist(ks *mkrlwe.KeySwitcher, ct *mkrlwe.Ciphertext, level int) *mkrlwe.HoistedCiphertext {
	h := mkrlwe.NewHoistedCiphertext()
	for id := range IDsOf(ct) {
		h.Value[id] = mkrlwe.NewSwitchingKey(g.p)
		ks.Decompose(level, ct.Value[id], h.Value[id])
	}
	return h
}

// phase at a level not above the ciphertext's.
func (g *gctx) phase(ct *mkrlwe.Ciphertext) *ring.Poly { return Phase(g.r, ct, g.s) }

func runC23(c *Case) {
	maxLogN := 9
	if c.Thorough() {
		maxLogN = 11
	}
	spec := RandRLWESpec(c.Rng, maxLogN, 9)
	if c.Index%bigEvery == 1 {
		spec = bigSpec(c, c.Range(1, 3))
	} else if logN := hugeN(c); logN != 0 {
		spec = bigSpecN(c, 2, logN)
	}
	g := newGctx(c, spec, Parties(c.Rng, spec, 1, 4))
	CheckRLWE(c, spec, g.p)
	ks := mkrlwe.NewKeySwitcher(g.p)
	max := g.p.MaxLevel()
	half := g.n / 2
	shape := spec.Shape()
	for i := c.Range(3, 6); i > 0; i-- {
		la := c.Range(0, max)
		if c.Coin(1, 2) {
			la = max
		}
		a := g.input(c, la)
		lo := la
		if c.Coin(1, 2) {
			lo = c.Range(0, la)
		}
		q := 1.0
		for _, x := range g.r.Modulus[:lo+1] {
			q *= float64(x)
		}
		kind := Pick(c.Rng, "rot", "rot", "roth", "conj", "mul", "mul", "mulh", "mulh", "above", "crypt")
		ids := IDsOf(a)
		sa := snapRLWE(a)
		var b *mkrlwe.Ciphertext
		var sb *snap
		c.Logf("%s: operand of %v level %d, receiver level %d", kind, ids, la, lo)
		judge := func(what string, out *mkrlwe.Ciphertext, want *ring.Poly, bound float64) {
			CheckShape(c, what, out, ids, lo)
			for id, p := range out.Value {
				if p.IsNTT {
					c.Fatal("domain", "%s: component %q is marked as NTT", what, id)
				}
				for j := range p.Coeffs {
					for x, v := range p.Coeffs[j] {
						if v >= 2*g.r.Modulus[j] {
							c.Fatal("range", "%s: component %q coefficient %d is %d modulo %d", what, id, x, v, g.r.Modulus[j])
						}
					}
				}
			}
			d := NormInf(g.r, lo, SubPoly(g.r, lo, g.phase(out), want))
			if bound < q/8 {
				c.Stat(what+"-noise/bound", d/bound)
				if d > bound {
					c.Fatal("noise", "%s (gamma %d): the phase differs from the exact one by %g, bound %g (level %d -> %d, %d parties)", what, g.p.Gamma(), d, bound, la, lo, len(ids))
				}
				c.Eval("%s/%s/gamma%d/parties%d/l%d-%d", what, shape, g.p.Gamma(), len(ids), la, lo)
			}
		}
		switch kind {
		case "rot", "roth":
			idx := 1 << uint(c.Intn(bitsLen(half)))
			if c.Coin(1, 2) {
				idx = c.Range(1, half-1)
				if _, in := g.p.CRS[idx]; !in {
					g.p.AddCRS(idx)
				}
			}
			g.needRot(idx)
			arg := idx
			if c.Coin(1, 3) {
				arg = idx - half*c.Range(1, 3)
			} else if c.Coin(1, 6) {
				arg = farRot(c, idx)
			}
			out := g.receiver(c, ids, lo)
			want := Automorphism(g.r, lo, g.phase(TruncRLWE(a, lo)), GaloisRot(g.n, idx))
			bound := g.noise.Switch(lo, len(ids)) + 1
			if kind == "rot" {
				ks.Rotate(a, arg, g.rtk, out)
				judge("Rotate", out, want, bound)
			} else {
				h := g.hoist(ks, a, c.Range(lo, la))
				hh := hoistHash(h)
				for j := c.Range(1, 2); j > 0; j-- {
					ks.RotateHoisted(a, arg, h, g.rtk, out)
					judge("RotateHoisted", out, want, bound)
				}
				for id, x := range hoistHash(h) {
					if hh[id] != x {
						c.Fatal("input-changed", "RotateHoisted changed the hoisted form of %q", id)
					}
				}
			}
		case "conj":
			out := g.receiver(c, ids, lo)
			ks.Conjugate(a, g.cjk, out)
			judge("Conjugate", out, Automorphism(g.r, lo, g.phase(TruncRLWE(a, lo)), uint64(2*g.n-1)), g.noise.Switch(lo, len(ids))+1)
		case "mul", "mulh":
			b = g.input(c, c.Range(lo, max))
			if c.Coin(1, 5) {
				b = a
			}
			sb = snapRLWE(b)
			ids = Union(ids, IDsOf(b))
			out := g.receiver(c, ids, lo)
			want := MulPoly(g.r, lo, g.phase(TruncRLWE(a, lo)), g.phase(TruncRLWE(b, lo)))
			bound := 2*g.noise.MulPre(lo, len(ids)) + 2
			if kind == "mul" {
				ks.MulAndRelin(a, b, g.rlk, out)
				judge("MulAndRelin", out, want, bound)
			} else {
				var ha, hb *mkrlwe.HoistedCiphertext
				if c.Coin(1, 2) {
					ha = g.hoist(ks, a, c.Range(lo, la))
				}
				if c.Coin(1, 2) {
					hb = g.hoist(ks, b, c.Range(lo, b.Level()))
					if a == b && ha != nil {
						hb = ha
					}
				}
				ks.MulAndRelinHoisted(a, b, ha, hb, g.rlk, out)
				judge("MulAndRelinHoisted", out, want, bound)
			}
		case "above":
			// a receiver above the operand's level
			if la == max {
				continue
			}
			out := g.receiver(c, ids, c.Range(la+1, max))
			g.needRot(1)
			op := Pick(c.Rng, "Rotate", "RotateHoisted", "Conjugate", "MulAndRelin", "MulAndRelinHoisted")
			did, _ := Panics(func() {
				switch op {
				case "Rotate":
					ks.Rotate(a, 1, g.rtk, out)
				case "RotateHoisted":
					ks.RotateHoisted(a, 1, g.hoist(ks, a, la), g.rtk, out)
				case "Conjugate":
					ks.Conjugate(a, g.cjk, out)
				case "MulAndRelin":
					ks.MulAndRelin(a, a, g.rlk, out)
				case "MulAndRelinHoisted":
					ks.MulAndRelinHoisted(a, a, nil, nil, g.rlk, out)
				}
			})
			if !did {
				c.Fatal("above", "%s of a ciphertext of level %d into one of level %d gave a result", op, la, out.Level())
			}
			c.Eval("above/%s/%s", op, shape)
		case "crypt":
			id := Pick(c.Rng, g.ids...)
			encryptRLWE(c, g.p, mkrlwe.NewEncryptor(g.p), mkrlwe.NewDecryptor(g.p), g.pk[id], g.sk[id], g.s, g.noise.FreshMax())
			decryptRLWE(c, g, a)
		}
		if d := sa.diffRLWE(a); d != "" {
			c.Fatal("input-changed", "%s changed its operand: %s", kind, d)
		}
		if b != nil {
			if d := sb.diffRLWE(b); d != "" {
				c.Fatal("input-changed", "%s changed its second operand: %s", kind, d)
			}
		}
	}
}

// TruncRLWE is the ciphertext at a lower level, copied.
func TruncRLWE(a *mkrlwe.Ciphertext, level int) *mkrlwe.Ciphertext {
	o := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range a.Value {
		o.Value[id] = &ring.Poly{Coeffs: copyLimbs(p.Coeffs[:level+1]), IsNTT: p.IsNTT}
	}
	return o
}

// decryptRLWE decrypts a multi-party ciphertext of either domain into plaintexts
// of any level and domain: exactly its phase.
func decryptRLWE(c *Case, g *gctx, a *mkrlwe.Ciphertext) {
	ct := TruncRLWE(a, a.Level())
	if c.Coin(1, 2) {
		for _, p := range ct.Value {
			g.r.NTTLvl(len(p.Coeffs)-1, p, p)
			p.IsNTT = true
		}
	}
	dom := ct.Value["0"].IsNTT
	pt := rlwe.NewPlaintext(g.p.Parameters, c.Range(0, g.p.MaxLevel()))
	pt.Value.IsNTT = c.Coin(1, 2)
	want := pt.Value.IsNTT
	randomise(c, g.r.Modulus, pt.Value.Coeffs)
	lv := mini(len(pt.Value.Coeffs)-1, a.Level())
	set := mkrlwe.NewSecretKeySet()
	for _, id := range g.ids {
		set.AddSecretKey(g.sk[id])
	}
	mkrlwe.NewDecryptor(g.p).Decrypt(ct, set, pt)
	if len(pt.Value.Coeffs)-1 != lv {
		c.Fatal("level", "decryption of a level %d ciphertext gives level %d, expected %d", a.Level(), len(pt.Value.Coeffs)-1, lv)
	}
	if pt.Value.IsNTT != want {
		c.Fatal("domain", "decryption changed the domain of its receiver")
	}
	d := NormInf(g.r, lv, SubPoly(g.r, lv, CoeffPoly(g.r, lv, pt.Value), g.phase(TruncRLWE(a, lv))))
	if d > math.SmallestNonzeroFloat64 {
		c.Fatal("decrypt", "decryption (ciphertext IsNTT=%v, plaintext IsNTT=%v) differs from the phase by %g", dom, want, d)
	}
	c.Eval("decrypt/parties%d/ct%v/pt%v/l%d-%d", len(a.Value)-1, dom, want, a.Level(), lv)
}

func init() {
	Register(&Prop{ID: "C23", Quick: 8000, Thorough: 160000, MinEvals: 400, Run: runC23,
		Rule: "one evaluation = one operation of the generic layer compared with the exact image or product of the operands' phases at the receiver's level; distinct = (operation, parameter shape, gamma, parties, operand and receiver level)",
		Assumptions: []string{"receivers hold exactly the owners of the result and are in the coefficient domain",
			"products whose noise bound is not below an eighth of the modulus are not judged"}})
}
