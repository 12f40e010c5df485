package core

import (
	"fmt"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkrlwe"
)

// QP is the oracle's own arithmetic on polynomials modulo Q and P: limbs in
// the NTT domain, plain (not Montgomery) residues.
type QP struct {
	Q, P *ring.Ring
	Mod  []uint64
}

// NewQP builds it for parameters.
func NewQP(params mkrlwe.Parameters) *QP {
	o := &QP{Q: params.RingQ(), P: params.RingP()}
	o.Mod = append(append([]uint64{}, o.Q.Modulus...), o.P.Modulus...)
	return o
}

// Limbs is a polynomial modulo all the primes of Q then P.
type Limbs [][]uint64

// Read copies a PolyQP, fully reduced; mform tells that it is in Montgomery form.
func (o *QP) Read(x rlwe.PolyQP, mform bool) Limbs {
	q, p := x.Q.CopyNew(), x.P.CopyNew()
	if mform {
		o.Q.InvMForm(q, q)
		o.P.InvMForm(p, p)
	}
	out := append(append(Limbs{}, q.Coeffs...), p.Coeffs...)
	for i := range out {
		for j := range out[i] {
			out[i][j] %= o.Mod[i]
		}
	}
	return out
}

// Small is the NTT of a polynomial with small coefficients.
func (o *QP) Small(c []int64) Limbs {
	q, p := SmallPoly(o.Q, c), SmallPoly(o.P, c)
	o.Q.NTT(q, q)
	o.P.NTT(p, p)
	return append(append(Limbs{}, q.Coeffs...), p.Coeffs...)
}

// MulAdd is x + sign * scal * a * b, limb by limb (scal nil: 1; b nil: 1).
func (o *QP) MulAdd(x, a, b Limbs, scal []uint64, neg bool) Limbs {
	out := make(Limbs, len(o.Mod))
	for i, q := range o.Mod {
		out[i] = make([]uint64, len(x[i]))
		for j := range out[i] {
			v := a[i][j]
			if b != nil {
				v = MulMod(v, b[i][j], q)
			}
			if scal != nil {
				v = MulMod(v, scal[i], q)
			}
			if neg && v != 0 {
				v = q - v
			}
			v += x[i][j]
			if v >= q {
				v -= q
			}
			out[i][j] = v
		}
	}
	return out
}

// SmallCoeffs gives the coefficients of x if they are all below bound in
// absolute value and the same modulo all the primes.
func (o *QP) SmallCoeffs(x Limbs, bound int64) (e []int64, why string) {
	n := len(x[0])
	nq := len(o.Q.Modulus)
	y := make(Limbs, len(x))
	for i := range x {
		y[i] = append([]uint64{}, x[i]...)
	}
	pq, pp := &ring.Poly{Coeffs: y[:nq]}, &ring.Poly{Coeffs: y[nq:]}
	o.Q.InvNTT(pq, pq)
	o.P.InvNTT(pp, pp)
	for i, q := range o.Mod {
		if e == nil {
			e = make([]int64, n)
			for j := range e {
				e[j] = centre(y[i][j], q)
				if e[j] > bound || e[j] < -bound {
					return nil, fmt.Sprintf("coefficient %d is %d modulo %d, the bound is %d", j, e[j], q, bound)
				}
			}
			continue
		}
		for j := range e {
			if v := centre(y[i][j], q); v != e[j] {
				return nil, fmt.Sprintf("coefficient %d is %d modulo %d but %d modulo %d", j, e[j], o.Mod[0], v, q)
			}
		}
	}
	return e, ""
}

// Scalar reduces an integer modulo all the primes.
func (o *QP) Scalar(v *big.Int) []uint64 {
	out := make([]uint64, len(o.Mod))
	t := new(big.Int)
	for i, q := range o.Mod {
		out[i] = t.Mod(v, new(big.Int).SetUint64(q)).Uint64()
	}
	return out
}

// Proportional tells whether limb 0 of a is a constant multiple of limb 0 of b.
func (o *QP) Proportional(a, b Limbs) bool {
	q := o.Mod[0]
	for j := 1; j < len(a[0]); j++ {
		if MulMod(a[0][j], b[0][0], q) != MulMod(a[0][0], b[0][j], q) {
			return false
		}
	}
	return true
}
