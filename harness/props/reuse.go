package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// Objects that are filled again: the same ciphertext, plaintext or key set
// objects with other contents must give what new objects with these contents
// give. An evaluator that remembers anything about an object it has seen
// (by pointer, by owner or by index) shows here.

func randomise(c *Case, mod []uint64, coeffs [][]uint64) {
	for i := range coeffs {
		for j := range coeffs[i] {
			coeffs[i][j] = c.Uint64() % mod[i]
		}
	}
}

// refillCT overwrites the contents of a ciphertext in place; the function it
// returns puts them back.
func refillCT(c *Case, r *ring.Ring, ct *mkrlwe.Ciphertext) func() {
	saved := snapRLWE(ct)
	for _, id := range append(keys(IDsOf(ct)), "0") {
		randomise(c, r.Modulus, ct.Value[id].Coeffs)
	}
	return func() {
		for id, p := range ct.Value {
			for i := range p.Coeffs {
				copy(p.Coeffs[i], saved.val[id][i])
			}
		}
	}
}

// shifted gives every owner the key of the next one.
func shifted(ids []string) map[string]string {
	o := map[string]string{}
	for i, id := range ids {
		o[id] = ids[(i+1)%len(ids)]
	}
	return o
}

// swapRotConj replaces the rotation and conjugation keys by those of other
// owners, in the same key sets or in other ones.
func swapRotConj(c *Case, ids []string, rtk **mkrlwe.RotationKeySet, cjk **mkrlwe.ConjugationKeySet, inPlace bool) func() {
	other := shifted(ids)
	oldR, oldC := *rtk, *cjk
	var rk []*mkrlwe.RotationKey
	var ck []*mkrlwe.ConjugationKey
	for _, id := range ids {
		for _, k := range oldR.Value[id] {
			rk = append(rk, k)
		}
		if k := oldC.Value[id]; k != nil {
			ck = append(ck, k)
		}
	}
	if !inPlace {
		*rtk, *cjk = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	}
	for _, k := range rk {
		(*rtk).AddRotationKey(&mkrlwe.RotationKey{Value: k.Value, ID: other[k.ID], RotIdx: k.RotIdx})
	}
	for _, k := range ck {
		(*cjk).AddConjugationKey(&mkrlwe.ConjugationKey{Value: k.Value, ID: other[k.ID]})
	}
	return func() {
		*rtk, *cjk = oldR, oldC
		for _, k := range rk {
			oldR.AddRotationKey(k)
		}
		for _, k := range ck {
			oldC.AddConjugationKey(k)
		}
	}
}

func swapKeysCKKS(c *Case, k *CKKS) func() {
	inPlace := c.Coin(1, 2)
	back := swapRotConj(c, k.IDs, &k.RtkSet, &k.CjkSet, inPlace)
	other, old := shifted(k.IDs), k.RlkSet
	var rlk []*mkrlwe.RelinearizationKey
	for _, id := range k.IDs {
		rlk = append(rlk, old.Value[id])
	}
	if !inPlace {
		k.RlkSet = mkrlwe.NewRelinearizationKeyKeySet(k.P.Parameters)
	}
	for _, x := range rlk {
		k.RlkSet.AddRelinearizationKey(&mkrlwe.RelinearizationKey{Value: x.Value, ID: other[x.ID]})
	}
	return func() {
		back()
		k.RlkSet = old
		for _, x := range rlk {
			old.AddRelinearizationKey(x)
		}
	}
}

func swapKeysBFV(c *Case, k *BFV) func() {
	inPlace := c.Coin(1, 2)
	back := swapRotConj(c, k.IDs, &k.RtkSet, &k.CjkSet, inPlace)
	other, old := shifted(k.IDs), k.RlkSet
	var rlk []*mkbfv.RelinearizationKey
	for _, id := range k.IDs {
		rlk = append(rlk, old.Value[id])
	}
	if !inPlace {
		k.RlkSet = mkbfv.NewRelinearizationKeyKeySet(k.P)
	}
	for _, x := range rlk {
		k.RlkSet.AddRelinearizationKey(&mkbfv.RelinearizationKey{Value: x.Value, ID: other[x.ID]})
	}
	return func() {
		back()
		k.RlkSet = old
		for _, x := range rlk {
			old.AddRelinearizationKey(x)
		}
	}
}

// reuse runs an action again after its operands or keys were filled anew, with
// the evaluator that has seen the old contents and with a new one.
func reuse(c *Case, r *ring.Ring, a *action, fresh func() interface{}, old interface{}, swap func() func()) {
	var back []func()
	what := Pick(c.Rng, "operands", "operands", "keys", "both")
	if what != "keys" {
		n := 0
		for i, x := range a.ins {
			if i > 0 && x == a.ins[0] {
				continue
			}
			if i == len(a.ins)-1 && n == 0 || c.Coin(1, 2) {
				back = append(back, refillCT(c, r, x))
				n++
			}
		}
		if a.refill != nil && c.Coin(1, 2) {
			back = append(back, a.refill())
		}
	}
	if what != "operands" {
		back = append(back, swap())
	}
	o1 := a.run(old)
	o2 := a.run(fresh())
	if d := sameSnap(outSnap(r, o2), outSnap(r, o1)); d != "" {
		c.Fatal("stale", "%s: after the same objects were filled with other contents (%s), the evaluator that has seen the old ones and a new one give different results: %s", a.name, what, d)
	}
	if len(a.hoist) > 0 {
		x := &mkckks.Ciphertext{Ciphertext: a.ins[0], Scale: 1}
		if a.hoistOf != nil {
			x = a.hoistOf
		}
		h1, h2 := hoistHash(old.(*mkckks.Evaluator).HoistedForm(x)), hoistHash(fresh().(*mkckks.Evaluator).HoistedForm(x))
		for id, v := range h2 {
			if h1[id] != v {
				c.Fatal("stale", "%s: after a ciphertext was filled with other contents, the hoisted form of the evaluator that has seen the old ones is not the one of a new evaluator (component %q)", a.name, id)
			}
		}
	}
	for i := len(back) - 1; i >= 0; i-- {
		back[i]()
	}
	c.Eval("reuse/%s/%s", a.name, what)
}

// encryptRLWE encrypts arbitrary plaintext polynomials with one encryptor: the
// plaintext and the keys stay as they are, and the same plaintext object with
// other contents gives an encryption of these.
func encryptRLWE(c *Case, params mkrlwe.Parameters, enc *mkrlwe.Encryptor, dec *mkrlwe.Decryptor, pk *mkrlwe.PublicKey, sk *mkrlwe.SecretKey, s map[string]*SK, bound float64) {
	r := params.RingQ()
	pt := rlwe.NewPlaintext(params.Parameters, c.Range(0, params.MaxLevel()))
	type made struct {
		ct *mkrlwe.Ciphertext
		s  *snap
	}
	var hist []made
	for i := 0; i < 2; i++ {
		pt.Value.IsNTT = c.Coin(1, 2)
		randomise(c, r.Modulus, pt.Value.Coeffs)
		before, dom := copyLimbs(pt.Value.Coeffs), pt.Value.IsNTT
		ct := mkrlwe.NewCiphertext(params, NewIDs(pk.ID), c.Range(0, params.MaxLevel()))
		ntt := c.Coin(1, 3)
		for _, id := range []string{"0", pk.ID} {
			ct.Value[id].IsNTT = ntt
			randomise(c, r.Modulus, ct.Value[id].Coeffs)
		}
		var h0, h1 uint64
		hashPK(&h0, pk)
		enc.Encrypt(pt, pk, ct)
		hashPK(&h1, pk)
		if h0 != h1 {
			c.Fatal("input-changed", "encryption changed its public key")
		}
		if d := diffLimbs(before, pt.Value.Coeffs); d != "" || pt.Value.IsNTT != dom {
			c.Fatal("input-changed", "encryption (plaintext IsNTT=%v, receiver IsNTT=%v) changed its plaintext: %s, IsNTT=%v", dom, ntt, d, pt.Value.IsNTT)
		}
		if d := shares(ct, &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"plaintext": pt.Value}}); d != "" {
			c.Fatal("alias", "a ciphertext and its plaintext: %s", d)
		}
		l := ct.Level()
		if x := NormInf(r, l, SubPoly(r, l, Phase(r, ct, s), CoeffPoly(r, l, pt.Value))); x > bound {
			c.Fatal("stale", "encryption %d with one plaintext object: the phase differs from its contents by %g, bound %g", i, x, bound)
		}
		out := rlwe.NewPlaintext(params.Parameters, c.Range(0, params.MaxLevel()))
		out.Value.IsNTT = c.Coin(1, 2)
		set := mkrlwe.NewSecretKeySet()
		set.AddSecretKey(sk)
		was := snapRLWE(ct)
		var k0, k1 uint64
		hashSK(&k0, sk)
		dec.Decrypt(ct, set, out)
		hashSK(&k1, sk)
		if d := was.diffRLWE(ct); d != "" || k0 != k1 {
			c.Fatal("input-changed", "decryption changed its ciphertext (%s) or key (%v)", d, k0 != k1)
		}
		if d := shares(ct, &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{"plaintext": out.Value}}); d != "" {
			c.Fatal("alias", "a ciphertext and its decryption: %s", d)
		}
		hist = append(hist, made{ct, was})
		c.Eval("encrypt/rlwe/pt%v/ct%v/l%d", dom, ntt, l)
	}
	for i, x := range hist {
		if d := x.s.diffRLWE(x.ct); d != "" {
			c.Fatal("alias", "ciphertext %d was changed by a later encryption: %s", i, d)
		}
	}
}

func hashPK(h *uint64, pk *mkrlwe.PublicKey) {
	for _, x := range pk.Value {
		for _, p := range []*ring.Poly{x.Q, x.P} {
			for _, l := range p.Coeffs {
				hashU64(h, l)
			}
		}
	}
}

func hashSK(h *uint64, sk *mkrlwe.SecretKey) {
	for _, p := range []*ring.Poly{sk.Value.Q, sk.Value.P} {
		for _, l := range p.Coeffs {
			hashU64(h, l)
		}
	}
}

func encryptPure(c *Case, k *CKKS) {
	id := Pick(c.Rng, k.IDs...)
	if c.Coin(1, 2) {
		encryptRLWE(c, k.P.Parameters, k.Enc.Encryptor, k.Dec.Decryptor, k.PK[id], k.SK[id], k.S, k.Noise.FreshMax())
		return
	}
	level, scale := k.P.MaxLevel(), k.P.Scale()
	lim := k.MaxSlot(level, scale, 8)
	if lim*scale < k.Noise.FreshMax() {
		return
	}
	m := mkckks.NewMessage(k.P)
	var keep []*mkckks.Ciphertext
	var want [][]complex128
	tol := 0.0
	for i := 0; i < 2; i++ {
		FillSlots(c.Rng, m.Value, math.Min(lim, 100))
		was := append([]complex128{}, m.Value...)
		var ct *mkckks.Ciphertext
		if c.Coin(1, 2) {
			ct = k.Enc.EncryptMsgNew(m, k.PK[id])
		} else {
			ct, _ = preallocated(c, k, id, level)
			k.Enc.EncryptMsg(m, k.PK[id], ct)
		}
		for j := range was {
			if was[j] != m.Value[j] {
				c.Fatal("input-changed", "encryption changed slot %d of its message", j)
			}
		}
		keep, want = append(keep, ct), append(want, was)
		tol = math.Max(tol, k.SlotTol(k.Noise.FreshMax(), scale, MaxAbs(was)))
	}
	for i, ct := range keep {
		checkDecode(c, k, fmt.Sprintf("encryption %d of one message object filled twice", i), ct, want[i], tol)
	}
	m1, m2 := k.Dec.Decrypt(keep[0], k.SKSet), k.Dec.Decrypt(keep[1], k.SKSet)
	if &m1.Value[0] == &m2.Value[0] {
		c.Fatal("alias", "two decryptions give messages that share storage")
	}
	if d, at := CompareSlots(m1.Value, want[0]); !(d <= tol) {
		c.Fatal("alias", "slot %d of a decrypted message changed with the next decryption", at)
	}
	c.Eval("encrypt/ckks/%s", k.Spec.Shape())
}

func encryptPureBFV(c *Case, k *BFV) {
	id := Pick(c.Rng, k.IDs...)
	if c.Coin(1, 2) || freshRel(k, 1) > 0.25 {
		encryptRLWE(c, k.P.Parameters, k.Enc.Encryptor, k.Dec.Decryptor, k.PK[id], k.SK[id], k.S, k.Noise.FreshMax())
		return
	}
	m := mkbfv.NewMessage(k.P)
	var keep []*mkbfv.Ciphertext
	var want [][]int64
	for i := 0; i < 2; i++ {
		FillInts(c.Rng, m.Value, k.T)
		was := append([]int64{}, m.Value...)
		var ct *mkbfv.Ciphertext
		if c.Coin(1, 2) {
			ct = k.Enc.EncryptMsgNew(m, k.PK[id])
		} else {
			ct = mkbfv.NewCiphertext(k.P, NewIDs(id))
			k.Enc.EncryptMsg(m, k.PK[id], ct)
		}
		for j := range was {
			if was[j] != m.Value[j] {
				c.Fatal("input-changed", "encryption changed slot %d of its message", j)
			}
		}
		keep, want = append(keep, ct), append(want, was)
	}
	for i, ct := range keep {
		checkBFV(c, k, fmt.Sprintf("encryption %d of one message object filled twice", i), ct, one(id), want[i], freshRel(k, 1))
	}
	m1, m2 := k.Dec.Decrypt(keep[0], k.SKSet), k.Dec.Decrypt(keep[1], k.SKSet)
	if &m1.Value[0] == &m2.Value[0] {
		c.Fatal("alias", "two decryptions give messages that share storage")
	}
	if ok, at := SameT(m1.Value, want[0], k.T); !ok {
		c.Fatal("alias", "slot %d of a decrypted message changed with the next decryption", at)
	}
	c.Eval("encrypt/bfv/%s", k.Spec.Shape())
}

// reload puts the contents of src into the object dst and gives dst: into the
// polynomials themselves where the shapes allow it, otherwise by replacing the
// polynomials.
func reload(dst, src *mkrlwe.Ciphertext) {
	for id := range dst.Value {
		if src.Value[id] == nil {
			delete(dst.Value, id)
		}
	}
	for id, p := range src.Value {
		q := dst.Value[id]
		if q == nil || len(q.Coeffs) != len(p.Coeffs) {
			dst.Value[id] = p
			continue
		}
		for i := range p.Coeffs {
			copy(q.Coeffs[i], p.Coeffs[i])
		}
		q.IsNTT = p.IsNTT
	}
}

// recycler sometimes hands an input over in the ciphertext object of the round
// before, which the evaluator has already seen with other contents.
type recycler struct{ last *mkckks.Ciphertext }

func (r *recycler) input(c *Case, in *input) {
	if r.last != nil && r.last != in.ct && c.Coin(1, 3) {
		reload(r.last.Ciphertext, in.ct.Ciphertext)
		r.last.Scale = in.ct.Scale
		in.ct = r.last
	}
	r.last = in.ct
}

// reloadB gives a BFV input of the pool other contents.
func reloadB(b, src *binput) {
	ct := b.ct
	reload(ct.Ciphertext, src.ct.Ciphertext)
	*b = *src
	b.ct = ct
}
