package core

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"sort"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"
)

// CKKS is one instance of the CKKS scheme with its parties.
type CKKS struct {
	C      *Case
	Spec   *Spec
	P      mkckks.Parameters
	R      *ring.Ring
	N      int
	CP     ckks.Parameters
	Kgen   *mkrlwe.KeyGenerator
	Enc    *mkckks.Encryptor
	Dec    *mkckks.Decryptor
	Eval   *mkckks.Evaluator
	IDs    []string
	SK     map[string]*mkrlwe.SecretKey
	PK     map[string]*mkrlwe.PublicKey
	S      map[string]*SK
	SKSet  *mkrlwe.SecretKeySet
	PKSet  *mkrlwe.PublicKeySet
	RlkSet *mkrlwe.RelinearizationKeySet
	RtkSet *mkrlwe.RotationKeySet
	CjkSet *mkrlwe.ConjugationKeySet
	Noise  *NoiseModel
	Ksw    *mkrlwe.KeySwitcher // kept for the case, made on first use
	hasRlk map[string]bool
	hasRtk map[string]map[int]bool
	hasCjk map[string]bool
	kept   kept[complex128]
}

// kept holds messages the library returned, and what they were: a later
// decryption must not change them.
type kept[T comparable] struct{ got, want [][]T }

func (h *kept[T]) add(c *Case, m []T) {
	for i, g := range h.got {
		for j, v := range g {
			if v != h.want[i][j] && (v == v || h.want[i][j] == h.want[i][j]) {
				c.Fatal("message-changed", "slot %d of a message decrypted earlier changed from %v to %v", j, h.want[i][j], v)
			}
		}
	}
	if len(h.got) == 4 {
		h.got, h.want = h.got[1:], h.want[1:]
	}
	h.got = append(h.got, m)
	h.want = append(h.want, append([]T{}, m...))
}

// Keep holds on to a decrypted message and checks the earlier ones.
func (k *CKKS) Keep(m *mkckks.Message) { k.kept.add(k.C, m.Value) }

// Keep holds on to a decrypted message and checks the earlier ones.
func (k *BFV) Keep(m *mkbfv.Message) { k.kept.add(k.C, m.Value) }

// NewCKKS builds an instance with n parties.
func NewCKKS(c *Case, s *Spec, n int) *CKKS {
	k := &CKKS{C: c, Spec: s, P: NewCKKSParams(s)}
	k.R = k.P.RingQ()
	k.N = k.P.N()
	k.CP, _ = ckks.NewParameters(k.P.Parameters.Parameters, k.P.LogSlots(), k.P.Scale())
	k.Kgen = mkrlwe.NewKeyGenerator(k.P.Parameters)
	k.Enc = mkckks.NewEncryptor(k.P)
	k.Dec = mkckks.NewDecryptor(k.P)
	k.Eval = mkckks.NewEvaluator(k.P)
	k.SK, k.PK, k.S = map[string]*mkrlwe.SecretKey{}, map[string]*mkrlwe.PublicKey{}, map[string]*SK{}
	k.SKSet, k.PKSet = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	k.RlkSet, k.RtkSet, k.CjkSet = mkrlwe.NewRelinearizationKeyKeySet(k.P.Parameters), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	k.hasRlk, k.hasRtk, k.hasCjk = map[string]bool{}, map[string]map[int]bool{}, map[string]bool{}
	k.Noise = NewNoiseModel(k.P.Parameters)
	k.IDs = RandIDs(c.Rng, n)
	c.Logf("CKKS %v parties=%q", s, k.IDs)
	for _, id := range k.IDs {
		k.addParty(id)
	}
	return k
}

func (k *CKKS) addParty(id string) {
	sk, pk := k.Kgen.GenKeyPair(id)
	k.SK[id], k.PK[id] = sk, pk
	k.SKSet.AddSecretKey(sk)
	k.PKSet.AddPublicKey(pk)
	s, ok, why := ReadSK(k.P.Parameters, sk)
	if !ok {
		k.C.Fatal("secret-key", "secret key of %q is not one small polynomial: %s", id, why)
	}
	k.S[id] = s
}

// Join adds a party to a running instance.
func (k *CKKS) Join(id string) {
	k.IDs = append(k.IDs, id)
	k.addParty(id)
}

// Renew gives a party that starts over a new secret and new keys of every kind
// it had, under its old name, in the same sets or in new ones.
func (k *CKKS) Renew(id string) {
	k.C.Logf("party %q starts over", id)
	k.addParty(id)
	if k.hasRlk[id] {
		k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(k.SK[id], k.Kgen.GenSecretKey(id)))
	}
	for _, r := range sortedInts(k.hasRtk[id]) {
		k.RtkSet.AddRotationKey(k.Kgen.GenRotationKey(r, k.SK[id]))
	}
	if k.hasCjk[id] {
		k.CjkSet.AddConjugationKey(k.Kgen.GenConjugationKey(k.SK[id]))
	}
	if k.C.Coin(1, 2) {
		return
	}
	rlk, rtk, cjk := mkrlwe.NewRelinearizationKeyKeySet(k.P.Parameters), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range k.IDs {
		if k.hasRlk[id] {
			rlk.AddRelinearizationKey(k.RlkSet.Value[id])
		}
		for _, r := range sortedInts(k.hasRtk[id]) {
			rtk.AddRotationKey(k.RtkSet.GetRotationKey(id, uint(r)))
		}
		if k.hasCjk[id] {
			cjk.AddConjugationKey(k.CjkSet.GetConjugationKey(id))
		}
	}
	k.RlkSet, k.RtkSet, k.CjkSet = rlk, rtk, cjk
}

func sortedInts(m map[int]bool) (o []int) {
	for i := range m {
		o = append(o, i)
	}
	sort.Ints(o)
	return
}

// Owners is the key set that holds exactly the secret keys of the given parties.
func Owners(sks map[string]*mkrlwe.SecretKey, ids map[string]bool) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for id := range ids {
		s.AddSecretKey(sks[id])
	}
	return s
}

// NeedRlk makes sure all parties have relinearization keys.
func (k *CKKS) NeedRlk() {
	for _, id := range k.IDs {
		if !k.hasRlk[id] {
			k.hasRlk[id] = true
			r := k.Kgen.GenSecretKey(id)
			k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(k.SK[id], r))
		}
	}
}

// NeedRot makes sure the parties have the keys to rotate by idx: the one of
// idx itself if a CRS exists for it, those of the powers of two otherwise.
func (k *CKKS) NeedRot(idx int) {
	h := k.N / 2
	idx = ((idx % h) + h) % h
	if idx == 0 {
		return
	}
	var need []int
	if _, in := k.P.CRS[idx]; in {
		need = []int{idx}
	} else {
		for b := 1; b < h; b *= 2 {
			if idx&b != 0 {
				need = append(need, b)
			}
		}
	}
	for _, id := range k.IDs {
		if k.hasRtk[id] == nil {
			k.hasRtk[id] = map[int]bool{}
		}
		for _, r := range need {
			if !k.hasRtk[id][r] {
				k.hasRtk[id][r] = true
				k.RtkSet.AddRotationKey(k.Kgen.GenRotationKey(r, k.SK[id]))
			}
		}
	}
}

// RotSteps is the number of key switches of a rotation.
func RotSteps(params mkrlwe.Parameters, idx int) int {
	h := params.N() / 2
	idx = ((idx % h) + h) % h
	if idx == 0 {
		return 0
	}
	if _, in := params.CRS[idx]; in {
		return 1
	}
	n := 0
	for ; idx > 0; idx >>= 1 {
		n += idx & 1
	}
	return n
}

// NeedConj makes sure the parties have conjugation keys.
func (k *CKKS) NeedConj() {
	for _, id := range k.IDs {
		if !k.hasCjk[id] {
			k.hasCjk[id] = true
			k.CjkSet.AddConjugationKey(k.Kgen.GenConjugationKey(k.SK[id]))
		}
	}
}

// Phase is the oracle's decryption before decoding.
func (k *CKKS) Phase(ct *mkckks.Ciphertext) *ring.Poly { return Phase(k.R, ct.Ciphertext, k.S) }

// AsOperand uses a result as the operand of another operation: its negative
// must have the negative phase.
func (k *CKKS) AsOperand(what string, ct *mkckks.Ciphertext) {
	for _, p := range ct.Value {
		if p.IsNTT {
			return
		}
	}
	zero := mkckks.NewCiphertext(k.P, ct.IDSet(), ct.Level(), ct.Scale)
	neg := k.Eval.SubNew(zero, ct)
	if d := NormInf(k.R, ct.Level(), AddPoly(k.R, ct.Level(), Phase(k.R, neg.Ciphertext, k.S), k.Phase(ct))); d != 0 || neg.Scale != ct.Scale {
		k.C.Fatal("operand", "%s: used as an operand of a subtraction from zero, the result does not give its negative (distance %g, scale %g)", what, d, neg.Scale)
	}
}

// AsOperand uses a result as the operand of another operation: its negative
// must have the negative phase.
func (k *BFV) AsOperand(what string, ct *mkbfv.Ciphertext) {
	level := k.P.MaxLevel()
	neg := k.Eval.SubNew(mkbfv.NewCiphertext(k.P, ct.IDSet()), ct)
	if d := NormInf(k.R, level, AddPoly(k.R, level, Phase(k.R, neg.Ciphertext, k.S), Phase(k.R, ct.Ciphertext, k.S))); d != 0 {
		k.C.Fatal("operand", "%s: used as an operand of a subtraction from zero, the result does not give its negative (distance %g)", what, d)
	}
}

// L1 is the sum of the 1-norms of the secrets of the parties of a ciphertext.
func (k *CKKS) L1(ct *mkckks.Ciphertext) float64 {
	var t float64
	for id := range ct.Value {
		if id != "0" {
			t += k.S[id].L1
		}
	}
	return t
}

// RandMsg draws a message: several distributions, several magnitudes.
func (k *CKKS) RandMsg(maxAbs float64) *mkckks.Message {
	m := mkckks.NewMessage(k.P)
	FillSlots(k.C.Rng, m.Value, maxAbs)
	return m
}

// FillSlots draws slot values.
func FillSlots(r *Rng, v []complex128, maxAbs float64) string {
	kind := Pick(r, "uniform", "uniform", "real", "imag", "zero", "const", "one-hot", "int", "tiny", "ramp")
	mag := maxAbs
	if r.Coin(1, 2) {
		mag = r.LogUniform(math.Min(1e-3, maxAbs), maxAbs)
	}
	if len(v) == 0 {
		return "none"
	}
	hot := r.Intn(len(v))
	cst := complex(r.Sym(mag), r.Sym(mag))
	for i := range v {
		switch kind {
		case "uniform":
			v[i] = complex(r.Sym(mag), r.Sym(mag))
		case "real":
			v[i] = complex(r.Sym(mag), 0)
		case "imag":
			v[i] = complex(0, r.Sym(mag))
		case "zero":
			v[i] = 0
		case "const":
			v[i] = cst
		case "one-hot":
			v[i] = 0
			if i == hot {
				v[i] = cst
			}
		case "int":
			v[i] = complex(math.Trunc(r.Sym(math.Max(1, mag))), math.Trunc(r.Sym(math.Max(1, mag))))
			if maxAbs < 1 {
				v[i] = 0
			}
		case "tiny":
			v[i] = complex(r.Sym(mag*1e-3), r.Sym(mag*1e-3))
		case "ramp":
			v[i] = complex(mag*float64(i)/float64(len(v)), -mag*float64(i)/float64(len(v)))
		}
	}
	return kind
}

// MaxSlot is the largest absolute slot value for which a message at this scale
// and level still leaves head room of the given factor (the coefficients of
// the encoding are at most sqrt2 * max|slot| * scale).
func (k *CKKS) MaxSlot(level int, scale, head float64) float64 {
	q := 1.0
	for i := 0; i <= level; i++ {
		q *= float64(k.R.Modulus[i])
		if q > 1e200 {
			break
		}
	}
	return q / (4 * scale * head)
}

// Encrypt draws a message and encrypts it under id, then drops levels.
func (k *CKKS) Encrypt(id string, maxAbs float64) (*mkckks.Message, *mkckks.Ciphertext) {
	m := k.RandMsg(maxAbs)
	ct := k.Enc.EncryptMsgNew(m, k.PK[id])
	return m, ct
}

// EncryptOver makes a ciphertext that involves the given parties: a sum of
// fresh encryptions, so that every party polynomial is generic.
func (k *CKKS) EncryptOver(ids []string, maxAbs float64) (msg []complex128, ct *mkckks.Ciphertext) {
	for i, id := range ids {
		m, c := k.Encrypt(id, maxAbs/float64(len(ids)))
		if i == 0 {
			msg, ct = append([]complex128{}, m.Value...), c
			continue
		}
		ct = SumCT(k.R, ct, c)
		for j := range msg {
			msg[j] += m.Value[j]
		}
	}
	return
}

// SumCT adds two ciphertexts of equal level with the oracle's own code, so that
// building the inputs of one operation does not go through another operation under test.
func SumCT(r *ring.Ring, a, b *mkckks.Ciphertext) *mkckks.Ciphertext {
	return &mkckks.Ciphertext{Ciphertext: SumRLWE(r, a.Ciphertext, b.Ciphertext), Scale: a.Scale}
}

// SumRLWE is SumCT on the generic ciphertexts.
func SumRLWE(r *ring.Ring, a, b *mkrlwe.Ciphertext) *mkrlwe.Ciphertext {
	o := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	level := minInt(a.Level(), b.Level())
	for id, p := range a.Value {
		if q, in := b.Value[id]; in {
			o.Value[id] = AddPoly(r, level, p, q)
		} else {
			o.Value[id] = reducedCopy(r, level, p)
		}
	}
	for id, p := range b.Value {
		if _, in := a.Value[id]; !in {
			o.Value[id] = reducedCopy(r, level, p)
		}
	}
	return o
}

// TruncCT drops levels with the oracle's own code.
func TruncCT(r *ring.Ring, a *mkckks.Ciphertext, level int) *mkckks.Ciphertext {
	o := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: a.Scale}
	for id, p := range a.Value {
		o.Value[id] = reducedCopy(r, level, p)
	}
	return o
}

// Subset draws a non-empty subset of the parties, in random order.
func (k *CKKS) Subset() []string { return Subset(k.C.Rng, k.IDs) }

// Subset draws a non-empty random subset.
func Subset(r *Rng, ids []string) []string {
	p := r.Perm(len(ids))
	n := r.Range(1, len(ids))
	if len(ids) > 5 && r.Coin(1, 3) {
		n = len(ids)
	}
	var out []string
	for _, i := range p[:n] {
		out = append(out, ids[i])
	}
	return out
}

// SlotTol is the tolerance on slots for a coefficient error bound at a scale.
func (k *CKKS) SlotTol(coefErr, scale, maxAbs float64) float64 {
	n := float64(k.N)
	// error sums over at most 2*slots coefficients (encoding repeats the pattern with a gap)
	return coefErr*2*float64(k.P.Slots())/scale + 1e-9*(1+maxAbs) + 4*n*1e-13*maxAbs
}

// MaxAbs of a slot vector.
func MaxAbs(v []complex128) float64 {
	var m float64
	for _, x := range v {
		m = math.Max(m, cmplx.Abs(x))
	}
	return m
}

// CompareSlots returns the largest distance and where.
func CompareSlots(a, b []complex128) (d float64, at int) {
	if len(a) != len(b) {
		return math.Inf(1), -1
	}
	for i := range a {
		e := cmplx.Abs(a[i] - b[i])
		if e > d || math.IsNaN(e) {
			d, at = e, i
			if math.IsNaN(e) {
				return math.Inf(1), i
			}
		}
	}
	return
}

// IDsOf lists the parties of a ciphertext.
func IDsOf(ct *mkrlwe.Ciphertext) map[string]bool {
	o := map[string]bool{}
	for id := range ct.Value {
		if id != "0" {
			o[id] = true
		}
	}
	return o
}

// CheckShape verifies the bookkeeping of a result: party set, level of every component.
func CheckShape(c *Case, what string, ct *mkrlwe.Ciphertext, ids map[string]bool, level int) {
	if ct.Value["0"] == nil {
		c.Fatal("shape", "%s: the result has no component \"0\"", what)
	}
	if ct.Level() != level {
		c.Fatal("level", "%s: level %d, expected %d", what, ct.Level(), level)
	}
	for id, p := range ct.Value {
		if len(p.Coeffs) != level+1 {
			c.Fatal("level", "%s: component %q has %d limbs, expected %d", what, id, len(p.Coeffs), level+1)
		}
		if id != "0" && !ids[id] {
			c.Fatal("parties", "%s: the result involves %q, expected parties %v", what, id, ids)
		}
	}
	for id := range ids {
		if ct.Value[id] == nil {
			c.Fatal("parties", "%s: the result lacks party %q", what, id)
		}
	}
}

// Union of party sets.
func Union(a, b map[string]bool) map[string]bool {
	o := map[string]bool{}
	for k := range a {
		o[k] = true
	}
	for k := range b {
		o[k] = true
	}
	return o
}

// BFV is one instance of the BFV scheme with its parties.
type BFV struct {
	C      *Case
	Spec   *Spec
	P      mkbfv.Parameters
	R      *ring.Ring
	N      int
	T      uint64
	Q      *big.Int
	Kgen   *mkbfv.KeyGenerator
	Enc    *mkbfv.Encryptor
	Dec    *mkbfv.Decryptor
	Eval   *mkbfv.Evaluator
	IDs    []string
	SK     map[string]*mkrlwe.SecretKey
	PK     map[string]*mkrlwe.PublicKey
	S      map[string]*SK
	SKSet  *mkrlwe.SecretKeySet
	RlkSet *mkbfv.RelinearizationKeySet
	RtkSet *mkrlwe.RotationKeySet
	CjkSet *mkrlwe.ConjugationKeySet
	Noise  *NoiseModel
	hasRlk map[string]bool
	hasRtk map[string]map[int]bool
	hasCjk map[string]bool
	kept   kept[int64]
}

// NewBFV builds an instance with n parties.
func NewBFV(c *Case, s *Spec, n int) *BFV {
	k := &BFV{C: c, Spec: s, P: NewBFVParams(s), T: s.T}
	k.R = k.P.RingQ()
	k.N = k.P.N()
	k.Q = ProdQ(k.R.Modulus, 0, len(k.R.Modulus)-1)
	k.Kgen = mkbfv.NewKeyGenerator(k.P)
	k.Enc = mkbfv.NewEncryptor(k.P)
	k.Dec = mkbfv.NewDecryptor(k.P)
	k.Eval = mkbfv.NewEvaluator(k.P)
	k.SK, k.PK, k.S = map[string]*mkrlwe.SecretKey{}, map[string]*mkrlwe.PublicKey{}, map[string]*SK{}
	k.SKSet = mkrlwe.NewSecretKeySet()
	k.RlkSet, k.RtkSet, k.CjkSet = mkbfv.NewRelinearizationKeyKeySet(k.P), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	k.hasRlk, k.hasRtk, k.hasCjk = map[string]bool{}, map[string]map[int]bool{}, map[string]bool{}
	k.Noise = NewNoiseModel(k.P.Parameters)
	k.IDs = RandIDs(c.Rng, n)
	c.Logf("BFV %v parties=%q", s, k.IDs)
	for _, id := range k.IDs {
		k.addParty(id)
	}
	return k
}

func (k *BFV) addParty(id string) {
	sk, pk := k.Kgen.GenKeyPair(id)
	k.SK[id], k.PK[id] = sk, pk
	k.SKSet.AddSecretKey(sk)
	o, ok, why := ReadSK(k.P.Parameters, sk)
	if !ok {
		k.C.Fatal("secret-key", "secret key of %q is not one small polynomial: %s", id, why)
	}
	k.S[id] = o
}

// Join adds a party to a running instance.
func (k *BFV) Join(id string) {
	k.IDs = append(k.IDs, id)
	k.addParty(id)
}

// Renew gives a party that starts over a new secret and new keys of every kind
// it had, under its old name, in the same sets or in new ones.
func (k *BFV) Renew(id string) {
	k.C.Logf("party %q starts over", id)
	k.addParty(id)
	if k.hasRlk[id] {
		k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(k.SK[id], k.Kgen.GenSecretKey(id)))
	}
	for _, r := range sortedInts(k.hasRtk[id]) {
		k.RtkSet.AddRotationKey(k.Kgen.GenRotationKey(r, k.SK[id]))
	}
	if k.hasCjk[id] {
		k.CjkSet.AddConjugationKey(k.Kgen.GenConjugationKey(k.SK[id]))
	}
	if k.C.Coin(1, 2) {
		return
	}
	rlk, rtk, cjk := mkbfv.NewRelinearizationKeyKeySet(k.P), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, id := range k.IDs {
		if k.hasRlk[id] {
			rlk.AddRelinearizationKey(k.RlkSet.Value[id])
		}
		for _, r := range sortedInts(k.hasRtk[id]) {
			rtk.AddRotationKey(k.RtkSet.GetRotationKey(id, uint(r)))
		}
		if k.hasCjk[id] {
			cjk.AddConjugationKey(k.CjkSet.GetConjugationKey(id))
		}
	}
	k.RlkSet, k.RtkSet, k.CjkSet = rlk, rtk, cjk
}

// NeedRlk makes sure all parties have relinearization keys.
func (k *BFV) NeedRlk() {
	for _, id := range k.IDs {
		if !k.hasRlk[id] {
			k.hasRlk[id] = true
			r := k.Kgen.GenSecretKey(id)
			k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(k.SK[id], r))
		}
	}
}

// NeedRot makes sure the parties can rotate by idx.
func (k *BFV) NeedRot(idx int) {
	h := k.N / 2
	idx = ((idx % h) + h) % h
	if idx == 0 {
		return
	}
	var need []int
	if _, in := k.P.CRS[idx]; in {
		need = []int{idx}
	} else {
		for b := 1; b < h; b *= 2 {
			if idx&b != 0 {
				need = append(need, b)
			}
		}
	}
	for _, id := range k.IDs {
		if k.hasRtk[id] == nil {
			k.hasRtk[id] = map[int]bool{}
		}
		for _, r := range need {
			if !k.hasRtk[id][r] {
				k.hasRtk[id][r] = true
				k.RtkSet.AddRotationKey(k.Kgen.GenRotationKey(r, k.SK[id]))
			}
		}
	}
}

// NeedConj makes sure the parties have conjugation keys.
func (k *BFV) NeedConj() {
	for _, id := range k.IDs {
		if !k.hasCjk[id] {
			k.hasCjk[id] = true
			k.CjkSet.AddConjugationKey(k.Kgen.GenConjugationKey(k.SK[id]))
		}
	}
}

// RandMsg draws a BFV message of any int64 values congruent classes: small,
// centred, extreme representatives.
func (k *BFV) RandMsg() *mkbfv.Message {
	m := mkbfv.NewMessage(k.P)
	FillInts(k.C.Rng, m.Value, k.T)
	return m
}

// FillInts draws integer slots in the range the encoder accepts (|v| <= t/2).
func FillInts(r *Rng, v []int64, t uint64) {
	h := int64(t / 2)
	kind := Pick(r, "uniform", "uniform", "uniform", "zero", "const", "one-hot", "small", "extreme", "ramp")
	if len(v) == 0 {
		return
	}
	hot := r.Intn(len(v))
	cst := r.Int64N(2*h+1) - h
	for i := range v {
		switch kind {
		case "uniform":
			v[i] = r.Int64N(2*h+1) - h
		case "zero":
			v[i] = 0
		case "const":
			v[i] = cst
		case "one-hot":
			v[i] = 0
			if i == hot {
				v[i] = cst
			}
		case "small":
			v[i] = r.Int64N(5) - 2
		case "extreme":
			v[i] = h
			if r.Coin(1, 2) {
				v[i] = -h
			}
		case "ramp":
			v[i] = (int64(i) - int64(len(v)/2)) % h
		}
	}
}

// EncryptOver makes a ciphertext that involves the given parties.
func (k *BFV) EncryptOver(ids []string) (msg []int64, ct *mkbfv.Ciphertext) {
	for i, id := range ids {
		m := k.RandMsg()
		c := k.Enc.EncryptMsgNew(m, k.PK[id])
		if i == 0 {
			msg, ct = append([]int64{}, m.Value...), c
			continue
		}
		ct = &mkbfv.Ciphertext{Ciphertext: SumRLWE(k.R, ct.Ciphertext, c.Ciphertext)}
		for j := range msg {
			msg[j] = CenterT(msg[j]+m.Value[j], k.T)
		}
	}
	return
}

// CenterT reduces to the centred representative modulo t.
func CenterT(x int64, t uint64) int64 {
	ti := int64(t)
	x %= ti
	if x > ti/2 {
		x -= ti
	}
	if x < -(ti / 2) {
		x += ti
	}
	return x
}

// MulT multiplies modulo t, centred.
func MulT(a, b int64, t uint64) int64 {
	x := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
	x.Mod(x, new(big.Int).SetUint64(t))
	return CenterT(x.Int64(), t)
}

// SameT compares slots modulo t.
func SameT(a, b []int64, t uint64) (ok bool, at int) {
	if len(a) != len(b) {
		return false, -1
	}
	for i := range a {
		if CenterT(a[i], t) != CenterT(b[i], t) {
			return false, i
		}
	}
	return true, 0
}

// NoiseOf returns the noise of a ciphertext: the largest distance of
// t*phase from the nearest multiple of Q, relative to Q (decryption is exact below 1/2),
// together with the rounded plaintext polynomial coefficients mod t.
func (k *BFV) NoiseOf(ct *mkbfv.Ciphertext) (rel float64, pt []uint64) {
	ph := Phase(k.R, ct.Ciphertext, k.S)
	v := BigCoeffs(k.R, ct.Level(), ph)
	t := new(big.Int).SetUint64(k.T)
	half := new(big.Int).Rsh(k.Q, 1)
	pt = make([]uint64, k.N)
	qf, _ := new(big.Float).SetInt(k.Q).Float64()
	qx := new(big.Float).SetInt(k.Q)
	m := new(big.Int)
	rem := new(big.Int)
	for j, x := range v {
		y := new(big.Int).Mul(x, t)
		y.Add(y, half)
		m.DivMod(y, k.Q, rem)
		rem.Sub(rem, half)
		f, _ := new(big.Float).Quo(new(big.Float).SetInt(rem), qx).Float64()
		if math.Abs(f) > rel {
			rel = math.Abs(f)
		}
		pt[j] = new(big.Int).Mod(m, t).Uint64()
	}
	_ = qf
	return
}

func (k *BFV) String() string { return fmt.Sprint(k.Spec) }
