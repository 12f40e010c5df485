package core

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// NTTPrimes draws n distinct primes congruent to 1 mod 2^(logN+1) with the
// given bit length (so in ]2^(bits-1), 2^bits[), none of them in used.
func NTTPrimes(r *Rng, logN, bits, n int, used map[uint64]bool) []uint64 {
	var out []uint64
	step := uint64(1) << uint(logN+1)
	lo, hi := uint64(1)<<uint(bits-1), uint64(1)<<uint(bits)
	span := (hi - lo) / step
	x := new(big.Int)
	for try := 0; len(out) < n; try++ {
		if try > 200000 {
			panic("harness: no NTT prime found")
		}
		p := lo + step*(r.Uint64()%span) + 1
		if used[p] {
			continue
		}
		if x.SetUint64(p).ProbablyPrime(10) {
			used[p] = true
			out = append(out, p)
		}
	}
	return out
}

// SmallNTTPrime draws one NTT prime of about the given bit length: the first
// one at or above a random starting point.
func SmallNTTPrime(r *Rng, logN, bits int, used map[uint64]bool) uint64 {
	step := uint64(1) << uint(logN+1)
	lo := uint64(1) << uint(bits-1)
	p := lo/step*step + step*(r.Uint64()%(lo/step+1)) + 1
	x := new(big.Int)
	for ; ; p += step {
		if !used[p] && x.SetUint64(p).ProbablyPrime(10) {
			used[p] = true
			return p
		}
	}
}

// NTTPrimesNear draws n distinct NTT primes within a relative distance of about 2^-close of 2^bits.
func NTTPrimesNear(r *Rng, logN, bits, close, n int, used map[uint64]bool) []uint64 {
	var out []uint64
	step := uint64(1) << uint(logN+1)
	width := uint64(1) << uint(bits-close)
	if width < 400*step {
		width = 400 * step
	}
	base := uint64(1) << uint(bits)
	x := new(big.Int)
	for try := 0; len(out) < n; try++ {
		if try > 20000 {
			width *= 2
			try = 0
		}
		d := step * (r.Uint64() % (width / step))
		p := base + d + 1
		if r.Coin(1, 2) || bits >= 60 {
			p = base - d + 1
		}
		if used[p] || p >= 1<<60 {
			continue
		}
		if x.SetUint64(p).ProbablyPrime(10) {
			used[p] = true
			out = append(out, p)
		}
	}
	return out
}

// WidePrimes draws n distinct NTT primes next to 2^bits, on both sides, as the
// library's own generator of moduli does for the largest sizes it accepts
// (60 bits for Q, 61 bits for P).
func WidePrimes(r *Rng, logN, bits, n int, used map[uint64]bool) []uint64 {
	var out []uint64
	step := uint64(1) << uint(logN+1)
	base := uint64(1) << uint(bits)
	x := new(big.Int)
	for len(out) < n {
		d := step * (r.Uint64() % uint64(200*(n+4)))
		p := base + d + 1
		if r.Coin(1, 2) {
			p = base - d + 1
		}
		if !used[p] && x.SetUint64(p).ProbablyPrime(10) {
			used[p] = true
			out = append(out, p)
		}
	}
	return out
}

// Spec describes a random parameter set.
type Spec struct {
	Family   string
	LogN     int
	LogSlots int
	Q, P     []uint64
	QMul     []uint64
	Scale    float64
	Sigma    float64
	T        uint64
	Gamma    int
}

func bitsOf(v []uint64) []int {
	o := make([]int, len(v))
	for i, x := range v {
		o[i] = int(math.Round(math.Log2(float64(x)) * 10))
	}
	return o
}

// Shape is a short signature of the parameter set.
func (s *Spec) Shape() string {
	return fmt.Sprintf("%s/n%d/s%d/Q%d/P%d", s.Family, s.LogN, s.LogSlots, len(s.Q), len(s.P))
}

func (s *Spec) String() string {
	return fmt.Sprintf("%s logN=%d logSlots=%d log2(Q)*10=%v log2(P)*10=%v scale=2^%.2f sigma=%.1f T=%d gamma=%d",
		s.Family, s.LogN, s.LogSlots, bitsOf(s.Q), bitsOf(s.P), math.Log2(math.Max(s.Scale, 1)), s.Sigma, s.T, s.Gamma)
}

// CKKSOpt restricts the generated CKKS parameters.
type CKKSOpt struct {
	MinQ, MaxQ    int
	MinLogN       int
	MaxLogN       int
	Big           bool // allow, now and then, a large ring
	NoDouble      bool
	FullPrecision bool // only families whose scale gives a usable precision
}

// RandCKKSSpec draws CKKS parameters. Families:
//
//	std     primes close to the scale, one rescaling per product
//	double  primes of half the scale's size, two rescalings per product
//	mixed   primes of varied sizes, scale of its own
//	deep    many small primes (large gadget dimension)
//	wide    primes as large as the library accepts, sometimes many
func RandCKKSSpec(r *Rng, o CKKSOpt) *Spec {
	s := &Spec{Sigma: 3.2, Gamma: 2}
	if o.MinLogN == 0 {
		o.MinLogN = 4
	}
	if o.MaxLogN == 0 {
		o.MaxLogN = 9
	}
	if o.MaxQ == 0 {
		o.MaxQ = 8
	}
	if o.MinQ == 0 {
		o.MinQ = 1
	}
	s.LogN = r.Range(o.MinLogN, o.MaxLogN)
	if o.MaxLogN > 7 && r.Coin(1, 2) {
		s.LogN = r.Range(o.MinLogN, maxInt(7, o.MinLogN))
	}
	if o.Big && r.Coin(1, 6) {
		s.LogN = r.Range(10, 12)
	}
	s.Family = Pick(r, "std", "std", "double", "mixed", "mixed", "deep", "wide")
	if o.NoDouble && s.Family == "double" {
		s.Family = "std"
	}
	np := Pick(r, 2, 2, 2, 3, 3, 4, 4, 5, 6)
	nq := r.Range(o.MinQ, o.MaxQ)
	used := map[uint64]bool{}
	maxq := 0
	switch s.Family {
	case "std":
		b := r.Range(30, 54)
		if b < s.LogN+14 {
			b = s.LogN + 14
		}
		q0 := NTTPrimes(r, s.LogN, minInt(60, b+r.Range(4, 12)), 1, used)
		s.Q = append(q0, NTTPrimesNear(r, s.LogN, b, r.Range(6, 14), nq-1, used)...)
		s.Scale = math.Ldexp(1, b)
		if r.Coin(1, 4) {
			s.Scale *= 1 + r.Sym(0.01)
		}
	case "double":
		if nq < 3 && o.MaxQ >= 3 {
			nq = 3
		}
		b := r.Range(22, 26)
		if b < s.LogN+12 {
			b = s.LogN + 12
		}
		q0 := NTTPrimes(r, s.LogN, minInt(60, 2*b+r.Range(3, 8)), 1, used)
		s.Q = append(q0, NTTPrimesNear(r, s.LogN, b, 7, nq-1, used)...)
		s.Scale = math.Ldexp(1, 2*b)
	case "mixed":
		s.Q = NTTPrimes(r, s.LogN, r.Range(50, 60), 1, used)
		for i := 1; i < nq; i++ {
			s.Q = append(s.Q, NTTPrimes(r, s.LogN, r.Range(maxInt(28, s.LogN+13), 60), 1, used)...)
		}
		s.Scale = math.Ldexp(1, r.Range(28, 44))
		if r.Coin(1, 2) {
			s.Scale *= 1 + r.Float64()*0.7
		}
	case "deep":
		if o.MaxQ >= 8 {
			nq = r.Range(8, 16)
			if s.LogN > 8 {
				s.LogN = r.Range(o.MinLogN, maxInt(8, o.MinLogN))
			}
			if r.Coin(1, 6) {
				nq = r.Range(17, 32)
				s.LogN = minInt(s.LogN, maxInt(6, o.MinLogN))
			}
		}
		b := maxInt(r.Range(24, 40), s.LogN+13)
		// the oracles measure errors in floating point: keep the product of the moduli well below its range
		nq = minInt(nq, 980/b)
		q0 := NTTPrimes(r, s.LogN, minInt(60, b+r.Range(5, 14)), 1, used)
		s.Q = append(q0, NTTPrimesNear(r, s.LogN, b, 6, nq-1, used)...)
		s.Scale = math.Ldexp(1, b)
	case "wide":
		if o.MaxQ >= 8 && r.Coin(1, 2) {
			nq = r.Range(8, 16)
			s.LogN = minInt(s.LogN, maxInt(6, o.MinLogN))
		}
		s.Q = WidePrimes(r, s.LogN, 60, nq, used)
		s.Scale = math.Ldexp(1, r.Range(30, 54))
	}
	for _, q := range s.Q {
		if b := log2ceil(q); b > maxq {
			maxq = b
		}
	}
	s.P = nil
	if s.Family == "wide" || r.Coin(1, 12) {
		s.P = WidePrimes(r, s.LogN, 61, np, used)
	}
	for len(s.P) < np {
		s.P = append(s.P, NTTPrimes(r, s.LogN, minInt(60, maxq+r.Range(0, 2)), 1, used)...)
	}
	s.LogSlots = s.LogN - 1
	if r.Coin(1, 3) {
		s.LogSlots = r.Range(0, s.LogN-1)
	}
	return s
}

func log2ceil(q uint64) int { return int(math.Ceil(math.Log2(float64(q)))) }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// NewCKKSParams builds the scheme parameters of a Spec.
func NewCKKSParams(s *Spec) mkckks.Parameters {
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, Sigma: s.Sigma})
	if err != nil {
		panic(fmt.Sprintf("harness: %v (%v)", err, s))
	}
	cp, err := ckks.NewParameters(rp, s.LogSlots, s.Scale)
	if err != nil {
		panic(fmt.Sprintf("harness: %v (%v)", err, s))
	}
	return mkckks.NewParameters(cp)
}

// NewRLWEParams builds generic parameters of a Spec.
func NewRLWEParams(s *Spec) mkrlwe.Parameters {
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: s.LogN, Q: s.Q, P: s.P, Sigma: s.Sigma})
	if err != nil {
		panic(fmt.Sprintf("harness: %v (%v)", err, s))
	}
	return mkrlwe.NewParameters(rp, s.Gamma)
}

// BFVOpt restricts the generated BFV parameters.
type BFVOpt struct {
	MinQ, MaxQ int
	MinLogN    int
	MaxLogN    int
	Big        bool
	MinBits    int
}

// RandBFVSpec draws BFV parameters. The library needs the number of Q primes
// to be a multiple of alpha (see known_findings.json), so only such ones are drawn.
func RandBFVSpec(r *Rng, o BFVOpt) *Spec {
	s := &Spec{Family: "bfv", Sigma: 3.2, Gamma: 2}
	if o.MinLogN == 0 {
		o.MinLogN = 4
	}
	if o.MaxLogN == 0 {
		o.MaxLogN = 9
	}
	if o.MaxQ == 0 {
		o.MaxQ = 6
	}
	if o.MinQ == 0 {
		o.MinQ = 1
	}
	if o.MinBits == 0 {
		o.MinBits = 40
	}
	s.LogN = r.Range(o.MinLogN, o.MaxLogN)
	if o.MaxLogN > 7 && r.Coin(1, 2) {
		s.LogN = r.Range(o.MinLogN, maxInt(7, o.MinLogN))
	}
	if o.Big && r.Coin(1, 6) {
		s.LogN = r.Range(10, 12)
	}
	np := Pick(r, 2, 2, 2, 3, 3, 4, 4, 6)
	alpha := np / 2
	nq := r.Range(o.MinQ, o.MaxQ)
	if nq%alpha != 0 {
		nq += alpha - nq%alpha
	}
	used := map[uint64]bool{}
	qb := r.Range(o.MinBits, 60)
	maxq := 0
	wide := r.Coin(1, 7)
	if wide {
		s.Family = "bfvwide"
		if o.MaxQ >= 6 && r.Coin(1, 2) {
			nq = alpha * (r.Range(6, 12) / alpha)
			s.LogN = minInt(s.LogN, maxInt(6, o.MinLogN))
		}
		s.Q = WidePrimes(r, s.LogN, 60, nq, used)
		s.QMul = WidePrimes(r, s.LogN, 60, nq, used)
		s.P = WidePrimes(r, s.LogN, 61, np, used)
	}
	for i := 0; i < nq && !wide; i++ {
		b := qb
		if r.Coin(1, 3) {
			b = r.Range(o.MinBits, 60)
		}
		s.Q = append(s.Q, NTTPrimes(r, s.LogN, b, 1, used)...)
	}
	// QMul's product is kept close to (and never much below) Q's, as in the shipped parameter sets
	for i := 0; i < nq && !wide; i++ {
		b := log2ceil(s.Q[i])
		if r.Coin(1, 3) && b < 60 {
			b++
		}
		s.QMul = append(s.QMul, NTTPrimes(r, s.LogN, b, 1, used)...)
	}
	for _, q := range append(append([]uint64{}, s.Q...), s.QMul...) {
		maxq = maxInt(maxq, log2ceil(q))
	}
	for i := 0; i < np && !wide; i++ {
		s.P = append(s.P, NTTPrimes(r, s.LogN, minInt(60, maxq+r.Range(0, 2)), 1, used)...)
	}
	tb := r.Range(s.LogN+4, maxInt(s.LogN+5, 21))
	if r.Coin(1, 5) {
		// smallest possible plaintext modulus
		x := new(big.Int)
		for p := uint64(2)<<uint(s.LogN) + 1; ; p += 2 << uint(s.LogN) {
			if x.SetUint64(p).ProbablyPrime(10) {
				s.T = p
				break
			}
		}
	} else {
		if r.Coin(1, 4) {
			// a wide plaintext modulus, as far as one product leaves room for it
			total, minq := 0, 64
			for _, q := range s.Q {
				total += log2ceil(q)
				minq = minInt(minq, log2ceil(q))
			}
			if hi := minInt(minq-2, (total-2*s.LogN-24)/2); hi > 22 {
				tb = r.Range(22, hi)
			}
		}
		s.T = SmallNTTPrime(r, s.LogN, tb, used)
	}
	return s
}

// NewBFVParams builds the scheme parameters of a Spec.
func NewBFVParams(s *Spec) mkbfv.Parameters {
	return mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: s.LogN, Q: s.Q, QMul: s.QMul, P: s.P, Sigma: s.Sigma, T: s.T})
}

// RandRLWESpec draws generic parameters, gamma included.
func RandRLWESpec(r *Rng, maxLogN, maxQ int) *Spec {
	s := RandCKKSSpec(r, CKKSOpt{MaxLogN: maxLogN, MaxQ: maxQ})
	s.Gamma = Pick(r, 2, 2, 2, 1, 3)
	if s.Gamma == 3 && len(s.P) < 3 {
		s.Gamma = 2
	}
	if s.Gamma == 1 && len(s.P) < 2 {
		s.Gamma = 2
	}
	return s
}

var oddIDs = []string{"", " ", "00", "0 ", "-0", "zero", "user0", "user1", "user01", "USER0", "a", "A", "é", "日本語",
	"\x00", "\xff\xfe", "0\x00", "1", "-1", "10", "nil", "user\n", "party/0", "0x0", "٠", "０"}

// RandIDs draws n distinct party names, ordinary and odd ones.
func RandIDs(r *Rng, n int) []string {
	seen := map[string]bool{"0": true}
	var out []string
	mode := r.Intn(3)
	for len(out) < n {
		var id string
		switch {
		case mode == 0:
			id = fmt.Sprintf("user%d", r.Intn(3*n+2))
		case mode == 1 || r.Coin(1, 2):
			id = oddIDs[r.Intn(len(oddIDs))]
			if r.Coin(1, 12) {
				b := make([]byte, r.Range(40, 200))
				for i := range b {
					b[i] = byte(r.Intn(256))
				}
				id = string(b)
			}
		default:
			b := make([]byte, r.Range(1, 12))
			for i := range b {
				b[i] = byte(r.Range(33, 126))
			}
			id = string(b)
		}
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// Parties is a number of parties between lo and hi, now and then a crowd of up
// to forty: whatever depends on the number of owners (lazy sums, fixed-size
// tables, thresholds) has to hold for them too. The keys of a crowd need small
// parameters.
func Parties(r *Rng, s *Spec, lo, hi int) int {
	np := r.Range(lo, hi)
	if !r.Coin(1, 10) {
		return np
	}
	switch work := len(s.Q) * (len(s.Q) + len(s.P)) << uint(s.LogN); {
	case work <= 1000 && r.Coin(1, 2):
		return r.Range(20, 40)
	case work <= 3000:
		return r.Range(6, 20)
	case work <= 10000:
		return r.Range(6, 10)
	}
	return np
}

func equalU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// CheckRLWE judges that the parameters are the ones asked for.
func CheckRLWE(c *Case, s *Spec, p mkrlwe.Parameters) {
	switch {
	case p.N() != 1<<s.LogN || p.LogN() != s.LogN:
		c.Fatal("parameters", "ring degree %d instead of %d", p.N(), 1<<s.LogN)
	case p.QCount() != len(s.Q) || p.MaxLevel() != len(s.Q)-1 || !equalU64(p.RingQ().Modulus, s.Q):
		c.Fatal("parameters", "moduli %v instead of %v", p.RingQ().Modulus, s.Q)
	case p.PCount() != len(s.P) || !equalU64(p.RingP().Modulus, s.P):
		c.Fatal("parameters", "special primes %v instead of %v", p.RingP().Modulus, s.P)
	case p.Sigma() != s.Sigma:
		c.Fatal("parameters", "noise of deviation %g instead of %g", p.Sigma(), s.Sigma)
	case s.Gamma != 0 && p.Gamma() != s.Gamma:
		c.Fatal("parameters", "gamma %d instead of %d", p.Gamma(), s.Gamma)
	}
}

// CheckParams judges that parameters and messages are the ones asked for.
func (k *CKKS) CheckParams() {
	CheckRLWE(k.C, k.Spec, k.P.Parameters)
	s := k.Spec
	if k.P.LogSlots() != s.LogSlots || k.P.Slots() != 1<<s.LogSlots || k.P.Scale() != s.Scale {
		k.C.Fatal("parameters", "parameters of 2^%d (%d) slots and scale %g instead of 2^%d and %g", k.P.LogSlots(), k.P.Slots(), k.P.Scale(), s.LogSlots, s.Scale)
	}
	if m := mkckks.NewMessage(k.P); m.Slots() != 1<<s.LogSlots || len(m.Value) != m.Slots() {
		k.C.Fatal("parameters", "messages of %d slots instead of %d", len(m.Value), 1<<s.LogSlots)
	}
}

// CheckParams judges that parameters and messages are the ones asked for.
func (k *BFV) CheckParams() {
	CheckRLWE(k.C, k.Spec, k.P.Parameters)
	s := k.Spec
	if k.P.T() != s.T || !equalU64(k.P.RingQMul().Modulus, s.QMul) {
		k.C.Fatal("parameters", "plaintext modulus %d and lifting primes %v instead of %d and %v", k.P.T(), k.P.RingQMul().Modulus, s.T, s.QMul)
	}
	if m := mkbfv.NewMessage(k.P); len(m.Value) != 1<<s.LogN {
		k.C.Fatal("parameters", "messages of %d slots instead of %d", len(m.Value), 1<<s.LogN)
	}
}
