// Package props holds one monitor per property.
package props

import (
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

func one(id string) map[string]bool { return map[string]bool{id: true} }

func setOf(ids []string) map[string]bool {
	o := map[string]bool{}
	for _, i := range ids {
		o[i] = true
	}
	return o
}

// checkDecode decrypts with the library and compares the slots.
func checkDecode(c *Case, k *CKKS, what string, ct *mkckks.Ciphertext, want []complex128, tol float64) {
	got := k.Dec.Decrypt(ct, k.SKSet)
	k.Keep(got)
	if len(got.Value) != k.P.Slots() {
		c.Fatal("slots", "%s: decrypted message has %d slots, expected %d", what, len(got.Value), k.P.Slots())
	}
	d, at := CompareSlots(got.Value, want)
	if !(d <= tol) {
		c.Fatal("slots", "%s: slot %d is %v, expected %v (distance %g, tolerance %g)", what, at, got.Value[maxi(at, 0)], want[maxi(at, 0)], d, tol)
	}
	if tol > 0 {
		c.Stat("slot-error/tolerance", d/tol)
	}
	if c.Coin(1, 3) {
		k.AsOperand(what, ct)
	}
}

// startOver: now and then a party comes back with new keys under its old name.
func startOver(c *Case, n int, ids []string, renew func(string)) bool {
	if n > 1024 || !c.Coin(1, 10) {
		return false
	}
	renew(Pick(c.Rng, ids...))
	return true
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func runC01(c *Case) {
	spec := RandCKKSSpec(c.Rng, CKKSOpt{Big: true})
	if c.Index%bigEvery == 1 {
		spec = bigSpec(c, c.Range(1, 4))
	} else if logN := hugeN(c); logN != 0 {
		spec = bigSpecN(c, 2, logN)
	}
	k := NewCKKS(c, spec, Parties(c.Rng, spec, 1, 4))
	k.CheckParams()
	encoder := ckks.NewEncoder(k.CP)
	max := k.P.MaxLevel()
	rounds := c.Range(3, 7)
	if k.N >= 4096 {
		rounds = 3
	}
	type old struct {
		ct   *mkckks.Ciphertext
		want []complex128
		tol  float64
	}
	var hist []old
	// plaintexts encoded by the encryptor, used again later
	type encoded struct {
		pt   *ckks.Plaintext
		snap [][]uint64
		want []complex128
	}
	var encs []encoded
	var m *mkckks.Message
	for i := 0; i < rounds; i++ {
		id := Pick(c.Rng, k.IDs...)
		if i > 0 && startOver(c, k.N, k.IDs, k.Renew) {
			hist = nil
		}
		pk := k.PK[id]
		level := max
		if max > 0 && c.Coin(1, 2) {
			level = c.Range(0, max)
		}
		scale := k.P.Scale()
		mode := Pick(c.Rng, "msgnew", "msg-into", "ptxt", "rlwe")
		if mode == "msgnew" {
			level = max
		}
		if mode == "ptxt" && c.Coin(1, 2) {
			scale = c.LogUniform(math.Max(1024, scale/1024), scale*4)
		}
		lim := k.MaxSlot(level, scale, 8)
		mag := c.LogUniform(math.Min(1e-4, lim/4), math.Min(lim, 1e6))
		if c.Coin(1, 6) && lim < 1e150 {
			mag = lim
		}
		if lim*scale < k.Noise.FreshMax() {
			continue // no room for the noise itself at this level
		}
		if m == nil || c.Coin(2, 3) {
			m = mkckks.NewMessage(k.P) // or the object of the round before, filled anew
		}
		kind := FillSlots(c.Rng, m.Value, mag)
		if len(m.Value) == k.P.Slots() && c.Coin(1, 8) {
			m.Value = m.Value[:c.Range(0, len(m.Value)-1)] // the other slots hold zero
			kind += "-short"
		}
		saved := append([]complex128{}, m.Value...)
		var ct *mkckks.Ciphertext
		ntt := false
		c.Logf("round %d: %s by %q level %d scale 2^%.2f message %s |.|<=%g", i, mode, id, level, math.Log2(scale), kind, mag)
		switch mode {
		case "msgnew":
			ct = k.Enc.EncryptMsgNew(m, pk)
		case "msg-into":
			ct, ntt = preallocated(c, k, id, level)
			k.Enc.EncryptMsg(m, pk, ct)
		case "ptxt":
			ptLevel := level
			ctLevel := level
			if c.Coin(1, 2) {
				ctLevel = c.Range(level, max)
			} else {
				ptLevel = c.Range(level, max)
			}
			pt := ckks.NewPlaintext(k.CP, ptLevel, scale)
			if c.Coin(1, 2) {
				encoder.EncodeNTT(pt, m.Value, k.P.LogSlots())
			} else {
				encoder.Encode(pt, m.Value, k.P.LogSlots())
			}
			ct, ntt = preallocated(c, k, id, ctLevel)
			if c.Coin(1, 2) && ptLevel == max && ctLevel == max && scale == k.P.Scale() {
				pt = k.Enc.EncodeMsgNew(m)
				want := append(append([]complex128{}, saved...), make([]complex128, k.P.Slots()-len(saved))...)
				encs = append(encs, encoded{pt, copyLimbs(pt.Value.Coeffs), want})
			}
			k.Enc.EncryptPtxt(pt, pk, ct)
		case "rlwe":
			pt := ckks.NewPlaintext(k.CP, level, scale)
			encoder.Encode(pt, m.Value, k.P.LogSlots())
			ct, ntt = preallocated(c, k, id, max)
			k.Enc.Encryptor.Encrypt(&rlwe.Plaintext{Value: pt.Value}, pk, ct.Ciphertext)
			ct.Scale = scale
		}
		for j := range saved {
			if saved[j] != m.Value[j] {
				c.Fatal("input-changed", "encryption changed slot %d of its message", j)
			}
		}
		CheckShape(c, "encryption", ct.Ciphertext, one(id), level)
		if ct.Scale != scale {
			c.Fatal("scale", "encryption at scale %g produced a ciphertext of scale %g", scale, ct.Scale)
		}
		for comp, p := range ct.Value {
			if p.IsNTT != ntt {
				c.Fatal("domain", "component %q: IsNTT=%v, the receiver had %v", comp, p.IsNTT, ntt)
			}
		}
		// phase level: message + small noise
		pt := ckks.NewPlaintext(k.CP, level, scale)
		encoder.Encode(pt, m.Value, k.P.LogSlots())
		noise := NormInf(k.R, level, SubPoly(k.R, level, k.Phase(ct), pt.Value))
		bound := k.Noise.FreshMax()
		c.Stat("fresh-noise/bound", noise/bound)
		if noise > bound {
			c.Fatal("noise", "fresh encryption noise %g exceeds the bound %g", noise, bound)
		}
		tol := k.SlotTol(bound, scale, MaxAbs(m.Value))
		want := append(saved, make([]complex128, k.P.Slots()-len(saved))...)
		checkDecode(c, k, "decryption of a fresh encryption", ct, want, tol)
		if ct.Level() != level || len(ct.Value) != 2 {
			c.Fatal("input-changed", "decryption changed its ciphertext")
		}
		// generic layer, output domain of the receiver
		ptOut := rlwe.NewPlaintext(k.P.Parameters.Parameters, c.Range(0, max))
		ptOut.Value.IsNTT = c.Coin(1, 2)
		dom := ptOut.Value.IsNTT
		lv := mini(level, len(ptOut.Value.Coeffs)-1)
		k.Dec.Decryptor.Decrypt(ct.Ciphertext, k.SKSet, ptOut)
		if len(ptOut.Value.Coeffs)-1 != lv {
			c.Fatal("level", "generic decryption gives level %d, expected min(ciphertext, plaintext)=%d", len(ptOut.Value.Coeffs)-1, lv)
		}
		chk := &ring.Poly{Coeffs: ptOut.Value.Coeffs, IsNTT: dom}
		if n := NormInf(k.R, lv, SubPoly(k.R, lv, CoeffPoly(k.R, lv, chk), pt.Value)); n > bound {
			c.Fatal("generic-decrypt", "generic decryption into a plaintext with IsNTT=%v differs from the message by %g (bound %g)", dom, n, bound)
		}
		hist = append(hist, old{ct, want, tol})
		if len(encs) > 0 {
			e := encs[c.Intn(len(encs))]
			if d := diffLimbs(e.snap, e.pt.Value.Coeffs); d != "" {
				c.Fatal("plaintext-changed", "a plaintext encoded before has changed: %s", d)
			}
			if c.Coin(1, 3) {
				later := mkckks.NewCiphertext(k.P, NewIDs(id), max, 1)
				k.Enc.EncryptPtxt(e.pt, pk, later)
				checkDecode(c, k, "encryption of a plaintext encoded before", later, e.want, k.SlotTol(bound, k.P.Scale(), MaxAbs(e.want)))
			}
		}
		// history independence: an earlier ciphertext still decrypts
		h := hist[c.Intn(len(hist))]
		checkDecode(c, k, "second decryption of an earlier ciphertext", h.ct, h.want, h.tol)
		c.Eval("%s/%s/lvl%d-of-%d/ntt%v/%s", spec.Shape(), mode, level, max, ntt, kind)
	}
}

// preallocated makes a receiver for id with left-over content.
func preallocated(c *Case, k *CKKS, id string, level int) (*mkckks.Ciphertext, bool) {
	ids := mkrlwe.NewIDSet()
	ids.Add(id)
	ct := mkckks.NewCiphertext(k.P, ids, level, c.LogUniform(1, 1e12))
	ntt := c.Coin(1, 3)
	for _, p := range ct.Value {
		p.IsNTT = ntt
		for i := range p.Coeffs {
			q := k.R.Modulus[i]
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = c.Uint64() % q
			}
		}
	}
	return ct, ntt
}

// bigSpec is a parameter set of production ring size.
func bigSpec(c *Case, nq int) *Spec {
	logN := c.Range(13, 14)
	if c.Thorough() {
		logN = c.Range(13, 15)
	}
	return bigSpecN(c, nq, logN)
}

// hugeN is the ring degree of the rare cases of the largest rings: every size
// the library accepts has to work, up to 2^16.
func hugeN(c *Case) int {
	switch c.Index % (8 * bigEvery) {
	case 2 * bigEvery:
		return 15
	case 5 * bigEvery:
		return 16
	}
	return 0
}

func bigSpecN(c *Case, nq, logN int) *Spec {
	s := &Spec{Family: "big", Sigma: 3.2, Gamma: 2, LogN: logN}
	used := map[uint64]bool{}
	b := c.Range(40, 52)
	s.Q = append(NTTPrimes(c.Rng, s.LogN, mini(60, b+8), 1, used), NTTPrimesNear(c.Rng, s.LogN, b, 8, nq-1, used)...)
	s.P = NTTPrimes(c.Rng, s.LogN, mini(60, b+9), Pick(c.Rng, 2, 3, 4), used)
	s.Scale = math.Ldexp(1, b)
	s.LogSlots = s.LogN - Pick(c.Rng, 1, 1, 2, 5)
	return s
}

func init() {
	Register(&Prop{ID: "C01", Quick: 2400, Thorough: 48000, MinEvals: 100, Run: runC01,
		Rule: "one evaluation = one encryption and decryption through a random entry point; distinct = (parameter shape, entry point, level, domain, message kind); trivial ones (no head room for the noise) are skipped",
		Assumptions: []string{"messages whose scaled coefficients fit the modulus with a factor of 8 to spare",
			"the ring arithmetic and the encoder of the lattigo dependency are the reference for encoding"}})
}
