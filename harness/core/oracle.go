package core

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkrlwe"
)

// SK is the oracle's own view of a party's secret: small signed coefficients.
type SK struct {
	ID    string
	Coef  []int64
	L1    float64
	nttM  *ring.Poly // NTT, Montgomery form, all Q moduli
	lvl   int
	ringQ *ring.Ring
}

// ReadSK extracts the integer coefficients of a secret key and checks that all
// of its residues agree on them. ok is false if they do not.
func ReadSK(params mkrlwe.Parameters, sk *mkrlwe.SecretKey) (s *SK, ok bool, why string) {
	ringQ, ringP := params.RingQ(), params.RingP()
	q := sk.Value.Q.CopyNew()
	ringQ.InvMForm(q, q)
	ringQ.InvNTT(q, q)
	p := sk.Value.P.CopyNew()
	ringP.InvMForm(p, p)
	ringP.InvNTT(p, p)
	s = &SK{ID: sk.ID, ringQ: ringQ}
	n := params.N()
	s.Coef = make([]int64, n)
	ok = true
	for j := 0; j < n; j++ {
		v := centre(q.Coeffs[0][j], ringQ.Modulus[0])
		s.Coef[j] = v
		s.L1 += math.Abs(float64(v))
		for i, m := range ringQ.Modulus {
			if centre(q.Coeffs[i][j], m) != v {
				ok, why = false, fmt.Sprintf("coefficient %d differs between q_0 (%d) and q_%d (%d)", j, v, i, centre(q.Coeffs[i][j], m))
			}
		}
		for i, m := range ringP.Modulus {
			if centre(p.Coeffs[i][j], m) != v {
				ok, why = false, fmt.Sprintf("coefficient %d differs between q_0 (%d) and p_%d (%d)", j, v, i, centre(p.Coeffs[i][j], m))
			}
		}
	}
	s.nttM = SmallPoly(ringQ, s.Coef)
	ringQ.NTT(s.nttM, s.nttM)
	ringQ.MForm(s.nttM, s.nttM)
	return
}

func centre(x, q uint64) int64 {
	x %= q
	if x > q/2 {
		return -int64(q - x)
	}
	return int64(x)
}

// SmallPoly builds the residues of a polynomial with small signed coefficients.
func SmallPoly(r *ring.Ring, c []int64) *ring.Poly {
	p := r.NewPoly()
	for i, q := range r.Modulus {
		for j, v := range c {
			if v >= 0 {
				p.Coeffs[i][j] = uint64(v) % q
			} else {
				p.Coeffs[i][j] = (q - uint64(-v)%q) % q
			}
		}
	}
	return p
}

// reducedCopy copies the first level+1 limbs, fully reduced.
func reducedCopy(r *ring.Ring, level int, p *ring.Poly) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j, v := range p.Coeffs[i] {
			o.Coeffs[i][j] = v % q
		}
	}
	o.IsNTT = p.IsNTT
	return o
}

// CoeffPoly returns a reduced coefficient-domain copy of a polynomial.
func CoeffPoly(r *ring.Ring, level int, p *ring.Poly) *ring.Poly {
	o := reducedCopy(r, level, p)
	if o.IsNTT {
		r.InvNTTLvl(level, o, o)
		o.IsNTT = false
	}
	return o
}

// Phase computes c_0 + sum_i c_i s_i mod Q_level in the coefficient domain.
func Phase(r *ring.Ring, ct *mkrlwe.Ciphertext, sks map[string]*SK) *ring.Poly {
	level := ct.Level()
	acc := CoeffPoly(r, level, ct.Value["0"])
	for id, c := range ct.Value {
		if id == "0" {
			continue
		}
		s := sks[id]
		if s == nil {
			panic("harness: no secret for a party of the ciphertext")
		}
		t := reducedCopy(r, level, c)
		if !t.IsNTT {
			r.NTTLvl(level, t, t)
		}
		r.MulCoeffsMontgomeryLvl(level, t, s.nttM, t)
		r.InvNTTLvl(level, t, t)
		r.AddLvl(level, acc, t, acc)
	}
	return acc
}

// MulPoly multiplies two coefficient-domain polynomials mod Q_level.
func MulPoly(r *ring.Ring, level int, a, b *ring.Poly) *ring.Poly {
	x, y := ring.NewPoly(r.N, level+1), ring.NewPoly(r.N, level+1)
	r.NTTLvl(level, a, x)
	r.NTTLvl(level, b, y)
	r.MFormLvl(level, x, x)
	r.MulCoeffsMontgomeryLvl(level, x, y, x)
	r.InvNTTLvl(level, x, x)
	return x
}

// Automorphism applies X -> X^g (coefficient domain).
func Automorphism(r *ring.Ring, level int, a *ring.Poly, g uint64) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	n := uint64(r.N)
	for j := uint64(0); j < n; j++ {
		e := (j * g) & (2*n - 1)
		for i := 0; i <= level; i++ {
			v := a.Coeffs[i][j] % r.Modulus[i]
			if e >= n {
				o.Coeffs[i][e-n] = (r.Modulus[i] - v) % r.Modulus[i]
			} else {
				o.Coeffs[i][e] = v
			}
		}
	}
	return o
}

// AutInt applies X -> X^g to integer coefficients.
func AutInt(a []int64, g uint64) []int64 {
	n := uint64(len(a))
	o := make([]int64, n)
	for j := uint64(0); j < n; j++ {
		e := (j * g) & (2*n - 1)
		if e >= n {
			o[e-n] = -a[j]
		} else {
			o[e] = a[j]
		}
	}
	return o
}

// GaloisRot is the automorphism of a rotation by k slots to the left, k taken mod N/2.
func GaloisRot(n, k int) uint64 {
	h := n / 2
	k = ((k % h) + h) % h
	g := uint64(1)
	for i := 0; i < k; i++ {
		g = (g * 5) & uint64(2*n-1)
	}
	return g
}

// NormInf is the centred infinity norm of a (reduced) polynomial mod Q_level, as a float,
// and whether all residues are those of one small integer per coefficient (norm below q_0/2).
func NormInf(r *ring.Ring, level int, p *ring.Poly) float64 {
	q0 := r.Modulus[0]
	var m float64
	small := true
	for j := 0; j < r.N && small; j++ {
		v := centre(p.Coeffs[0][j], q0)
		for i := 1; i <= level; i++ {
			if centre(p.Coeffs[i][j], r.Modulus[i]) != v {
				// the value may be small but above q_i/2
				q := r.Modulus[i]
				w := uint64(v)
				if v < 0 {
					w = q - uint64(-v)%q
				}
				if w%q != p.Coeffs[i][j]%q {
					small = false
					break
				}
			}
		}
		if a := math.Abs(float64(v)); a > m {
			m = a
		}
	}
	if small && level > 0 || level == 0 {
		return m
	}
	m = 0
	for _, x := range BigCoeffs(r, level, p) {
		f, _ := new(big.Float).SetInt(x).Float64()
		if f = math.Abs(f); f > m {
			m = f
		}
	}
	return m
}

// BigCoeffs reconstructs the centred integer coefficients of p mod Q_level (own CRT).
func BigCoeffs(r *ring.Ring, level int, p *ring.Poly) []*big.Int {
	return CRTCoeffs(r.Modulus[:level+1], p.Coeffs[:level+1])
}

// CRTCoeffs reconstructs centred integers from residues (own CRT).
func CRTCoeffs(mod []uint64, coeffs [][]uint64) []*big.Int {
	Q := big.NewInt(1)
	for _, q := range mod {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	half := new(big.Int).Rsh(Q, 1)
	base := make([]*big.Int, len(mod))
	for i, q := range mod {
		bq := new(big.Int).SetUint64(q)
		h := new(big.Int).Div(Q, bq)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(h, bq), bq)
		base[i] = h.Mul(h, inv)
	}
	n := len(coeffs[0])
	out := make([]*big.Int, n)
	t := new(big.Int)
	for j := 0; j < n; j++ {
		x := new(big.Int)
		for i := range mod {
			t.SetUint64(coeffs[i][j] % mod[i])
			t.Mul(t, base[i])
			x.Add(x, t)
		}
		x.Mod(x, Q)
		if x.Cmp(half) > 0 {
			x.Sub(x, Q)
		}
		out[j] = x
	}
	return out
}

// FromBig reduces integers modulo each of the first level+1 moduli.
func FromBig(r *ring.Ring, level int, v []*big.Int) *ring.Poly {
	p := ring.NewPoly(r.N, level+1)
	t, m := new(big.Int), new(big.Int)
	for i := 0; i <= level; i++ {
		m.SetUint64(r.Modulus[i])
		for j := range v {
			p.Coeffs[i][j] = t.Mod(v[j], m).Uint64()
		}
	}
	return p
}

// ProdQ is the product of the moduli lo..hi (inclusive).
func ProdQ(mod []uint64, lo, hi int) *big.Int {
	Q := big.NewInt(1)
	for i := lo; i <= hi; i++ {
		Q.Mul(Q, new(big.Int).SetUint64(mod[i]))
	}
	return Q
}

// DivRoundPoly returns round(p / (q_{newLevel+1}...q_level)) mod Q_newLevel, computed on integers.
func DivRoundPoly(r *ring.Ring, level, newLevel int, p *ring.Poly) *ring.Poly {
	if newLevel == level {
		return reducedCopy(r, level, p)
	}
	d := ProdQ(r.Modulus, newLevel+1, level)
	half := new(big.Int).Rsh(d, 1)
	v := BigCoeffs(r, level, p)
	for _, x := range v {
		x.Add(x, half)
		x.Div(x, d) // floor: d > 0 and Div is Euclidean
	}
	return FromBig(r, newLevel, v)
}

// SubPoly is a - b mod Q_level.
func SubPoly(r *ring.Ring, level int, a, b *ring.Poly) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := 0; j < r.N; j++ {
			x, y := a.Coeffs[i][j]%q, b.Coeffs[i][j]%q
			if x >= y {
				o.Coeffs[i][j] = x - y
			} else {
				o.Coeffs[i][j] = x + q - y
			}
		}
	}
	return o
}

// AddPoly is a + b mod Q_level.
func AddPoly(r *ring.Ring, level int, a, b *ring.Poly) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := 0; j < r.N; j++ {
			o.Coeffs[i][j] = (a.Coeffs[i][j]%q + b.Coeffs[i][j]%q) % q
		}
	}
	return o
}

// ScalePoly multiplies by an integer.
func ScalePoly(r *ring.Ring, level int, a *ring.Poly, k *big.Int) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	m := new(big.Int)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		kq := m.Mod(k, new(big.Int).SetUint64(q)).Uint64()
		for j := 0; j < r.N; j++ {
			o.Coeffs[i][j] = MulMod(a.Coeffs[i][j]%q, kq, q)
		}
	}
	return o
}

// MulMod is a*b mod q for a, b < q.
func MulMod(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, rem := bits.Div64(hi, lo, q)
	return rem
}

// EqualPoly compares modulo the moduli.
func EqualPoly(r *ring.Ring, level int, a, b *ring.Poly) bool {
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j := 0; j < r.N; j++ {
			if a.Coeffs[i][j]%q != b.Coeffs[i][j]%q {
				return false
			}
		}
	}
	return true
}

// Noise model ------------------------------------------------------------

// NoiseModel gives the bounds the oracles compare with.
type NoiseModel struct {
	N        int
	Sigma    float64
	Bound    float64 // hard bound of one Gaussian coefficient
	D        float64 // largest digit of the gadget
	P        float64
	Beta     func(level int) int
	QLast    []uint64
	NumParty int
}

// NewNoiseModel builds the model of generic parameters.
func NewNoiseModel(params mkrlwe.Parameters) *NoiseModel {
	m := &NoiseModel{N: params.N(), Sigma: params.Sigma(), Bound: math.Floor(6 * params.Sigma())}
	alpha := params.Alpha()
	qs := params.RingQ().Modulus
	m.QLast = qs
	m.D = digitMax(qs, alpha)
	m.P = 1
	for _, p := range params.RingP().Modulus {
		m.P *= float64(p)
	}
	m.Beta = params.Beta
	return m
}

func digitMax(qs []uint64, alpha int) float64 {
	d := 0.0
	for i := 0; i < len(qs); i += alpha {
		x := 1.0
		for j := i; j < i+alpha && j < len(qs); j++ {
			x *= float64(qs[j])
		}
		d = math.Max(d, x)
	}
	return d
}

// FreshMax bounds the noise of a fresh encryption: e_0 + e u + e_1 s.
func (m *NoiseModel) FreshMax() float64 {
	hard := m.Bound * float64(2*m.N+1)
	soft := 14 * m.Sigma * math.Sqrt(1+float64(m.N)*1.25)
	return math.Min(hard, soft) + 1
}

// Switch bounds the error of one key switch over n parties: the worst case, or
// nine times the standard deviation if that is less.
func (m *NoiseModel) Switch(level, n int) float64 {
	N, k, beta := float64(m.N), float64(n), float64(m.Beta(level))
	hard := k * (beta*N*m.D*m.Bound*2/m.P + 2*(1+N))
	g := m.D * m.Sigma / m.P
	soft := 9*math.Sqrt(k*(beta*N*g*g+1+N)) + 2*k
	return math.Min(hard, soft) + 2
}

// MulPre bounds the error of a multiplication before its rescaling.
func (m *NoiseModel) MulPre(level, n int) float64 {
	N, b, k := float64(m.N), float64(m.Beta(level)), float64(n)
	return k*(b*N*N*m.D*m.D*4*m.Bound/m.P*k+b*N*m.D*2*m.Bound/m.P+4*(1+N)*k) + k*N*4 + 2
}

// RoundMax bounds the rounding error of dividing a ciphertext of n parties by a modulus.
func (m *NoiseModel) RoundMax(l1 float64) float64 { return 0.5*(1+l1) + 0.5 }

// InvMod is the inverse of a modulo the prime q.
func InvMod(a, q uint64) uint64 {
	r, b := uint64(1), a%q
	for e := q - 2; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = MulMod(r, b, q)
		}
		b = MulMod(b, b, q)
	}
	return r
}
