package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C15

// decScheme is what the decryption monitor needs of a scheme.
type decScheme struct {
	name   string
	params mkrlwe.Parameters
	r      *ring.Ring
	n      int
	ids    []string
	sk     map[string]*mkrlwe.SecretKey
	s      map[string]*SK
	// decrypt runs the scheme's Decrypt and returns a fingerprint of the message
	decrypt func(ct *mkrlwe.Ciphertext, set *mkrlwe.SecretKeySet) []float64
	partial func(ct *mkrlwe.Ciphertext, sk *mkrlwe.SecretKey)
	// want and tolerance of a ciphertext's message
	same func(a, b []float64) bool
}

func runC15(c *Case) {
	bfv := c.Coin(1, 2)
	if c.Index == 1 || c.Index == 2 {
		bfv = c.Index == 2
	}
	np := 0
	var d *decScheme
	var make1 func(ids []string) (*mkrlwe.Ciphertext, []float64, float64)
	var kg *mkrlwe.KeyGenerator
	shape := ""
	if bfv {
		spec := bspecFor(c, c.Index == 2, BFVOpt{MinBits: 40, Big: true})
		np = Parties(c.Rng, spec, 2, 5)
		k := NewBFV(c, spec, np)
		if freshRel(k, len(k.IDs)) > 0.2 {
			return
		}
		shape = spec.Shape()
		kg = k.Kgen.KeyGenerator
		d = &decScheme{name: "bfv", params: k.P.Parameters, r: k.R, n: k.N, ids: k.IDs, sk: k.SK, s: k.S}
		d.decrypt = func(ct *mkrlwe.Ciphertext, set *mkrlwe.SecretKeySet) []float64 {
			m := k.Dec.Decrypt(&mkbfv.Ciphertext{Ciphertext: ct}, set)
			k.Keep(m)
			o := make([]float64, len(m.Value))
			for i, v := range m.Value {
				o[i] = float64(CenterT(v, k.T))
			}
			return o
		}
		d.partial = func(ct *mkrlwe.Ciphertext, sk *mkrlwe.SecretKey) {
			k.Dec.PartialDecrypt(&mkbfv.Ciphertext{Ciphertext: ct}, sk)
		}
		make1 = func(ids []string) (*mkrlwe.Ciphertext, []float64, float64) {
			b := makeBInput(c, k, ids)
			o := make([]float64, len(b.msg))
			for i, v := range b.msg {
				o[i] = float64(CenterT(v, k.T))
			}
			return b.ct.Ciphertext, o, 0
		}
	} else {
		spec := specFor(c, c.Index == 1)
		np = Parties(c.Rng, spec, 2, 5)
		k := NewCKKS(c, spec, np)
		shape = spec.Shape()
		kg = k.Kgen
		var scale float64
		d = &decScheme{name: "ckks", params: k.P.Parameters, r: k.R, n: k.N, ids: k.IDs, sk: k.SK, s: k.S}
		d.decrypt = func(ct *mkrlwe.Ciphertext, set *mkrlwe.SecretKeySet) []float64 {
			m := k.Dec.Decrypt(&mkckks.Ciphertext{Ciphertext: ct, Scale: scale}, set)
			k.Keep(m)
			o := make([]float64, 2*len(m.Value))
			for i, v := range m.Value {
				o[2*i], o[2*i+1] = real(v), imag(v)
			}
			return o
		}
		d.partial = func(ct *mkrlwe.Ciphertext, sk *mkrlwe.SecretKey) {
			k.Dec.PartialDecrypt(&mkckks.Ciphertext{Ciphertext: ct, Scale: scale}, sk)
		}
		make1 = func(ids []string) (*mkrlwe.Ciphertext, []float64, float64) {
			scale = k.P.Scale()
			level := c.Range(0, k.P.MaxLevel())
			mag := math.Min(k.MaxSlot(level, scale, 16), 100)
			in := makeInput(c, k, ids, level, scale, mag)
			o := make([]float64, 2*len(in.msg))
			for i, v := range in.msg {
				o[2*i], o[2*i+1] = real(v), imag(v)
			}
			if c.Coin(1, 3) {
				toNTT(k, in.ct)
			}
			tol := k.SlotTol(in.err, scale, MaxAbs(in.msg))
			if mag < 1e-30 || mag*scale < in.err {
				tol = math.Inf(1)
			}
			return in.ct.Ciphertext, o, tol
		}
	}
	rounds := c.Range(2, 4)
	for i := 0; i < rounds; i++ {
		ids := Subset(c.Rng, d.ids)
		ct, want, tol := make1(ids)
		decryptionRound(c, d, kg, shape, ids, ct, want, tol)
	}
}

func floatsClose(a, b []float64, tol float64) (bool, int) {
	if len(a) != len(b) {
		return false, -1
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol) {
			return false, i
		}
	}
	return true, 0
}

func skSet(sks ...*mkrlwe.SecretKey) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, k := range sks {
		s.AddSecretKey(k)
	}
	return s
}

func decryptionRound(c *Case, d *decScheme, kg *mkrlwe.KeyGenerator, shape string, ids []string, ct *mkrlwe.Ciphertext, want []float64, tol float64) {
	level := ct.Level()
	involved := setOf(ids)
	before := snapRLWE(ct)
	unchanged := func(what string) {
		if s := before.diffRLWE(ct); s != "" {
			c.Fatal("input-changed", "%s changed the ciphertext: %s", what, s)
		}
	}
	c.Logf("ciphertext of %q at level %d, NTT %v", ids, level, ct.Value["0"].IsNTT)
	// the exact set
	var mine []*mkrlwe.SecretKey
	for _, id := range ids {
		mine = append(mine, d.sk[id])
	}
	keyHash := map[string][][]uint64{}
	for id, k := range d.sk {
		keyHash[id] = snapSK(k)
	}
	got := d.decrypt(ct, skSet(mine...))
	unchanged("Decrypt")
	if ok, at := floatsClose(got, want, tol); !ok {
		c.Fatal("result", "%s: decryption with exactly the keys of %q: value %d is %v, expected %v (tolerance %g)", d.name, ids, at, got[maxi(at, 0)], want[maxi(at, 0)], tol)
	}
	// any superset gives the very same message
	sup := append([]*mkrlwe.SecretKey{}, mine...)
	extra := 0
	for _, id := range d.ids {
		if !involved[id] && c.Coin(2, 3) {
			sup = append(sup, d.sk[id])
			extra++
		}
	}
	for _, id := range []string{"an outsider", "another one"}[:c.Range(0, 2)] {
		if _, in := d.sk[id]; !in {
			sup = append(sup, kg.GenSecretKey(id))
			extra++
		}
	}
	got2 := d.decrypt(ct, skSet(sup...))
	if ok, at := floatsClose(got2, got, 0); !ok {
		c.Fatal("result", "%s: %d keys of parties not involved change value %d of the decryption", d.name, extra, at)
	}
	unchanged("Decrypt")
	c.Eval("%s/superset/%d-of-%d+%d", shape, len(ids), len(d.ids), extra)
	// a missing key is refused
	for i := range ids {
		if len(ids) > 2 && c.Coin(1, 3) {
			continue
		}
		var some []*mkrlwe.SecretKey
		for _, k := range sup {
			if k.ID != ids[i] && (!involved[k.ID] || c.Coin(3, 4)) {
				some = append(some, k)
			}
		}
		did, _ := Panics(func() { d.decrypt(ct, skSet(some...)) })
		if !did {
			c.Fatal("missing-key", "%s: decryption of a ciphertext of %q without the key of %q gave a message", d.name, ids, ids[i])
		}
		unchanged("a refused Decrypt")
		c.Eval("%s/missing-%d-of-%d", shape, len(ids)-len(some)+extra, len(ids))
	}
	// a wrong key under the right name does not decrypt
	{
		v := ids[c.Intn(len(ids))]
		var keys []*mkrlwe.SecretKey
		for _, k := range mine {
			if k.ID == v {
				k = kg.GenSecretKey(v)
			}
			keys = append(keys, k)
		}
		w := d.decrypt(ct, skSet(keys...))
		diff := 0
		for j := range w {
			if !(math.Abs(w[j]-want[j]) <= tol) {
				diff++
			}
		}
		// in small rings the encryption randomness is zero often enough (2^-N) to be seen
		if diff == 0 && !math.IsInf(tol, 1) && len(w) >= 8 && d.n >= 64 {
			c.Fatal("wrong-key", "%s: a fresh key in place of the one of %q still decrypts: %v, expected %v within %g", d.name, v, w, want, tol)
		}
		c.Eval("%s/wrong-key", shape)
	}
	// partial decryptions, in random orders: the order does not matter, each one
	// removes its party only and leaves what the others decrypt unchanged
	phase := Phase(d.r, ct, d.s)
	for t := 0; t < 2; t++ {
		w := copyCT(ct)
		left := map[string]bool{}
		for _, id := range ids {
			left[id] = true
		}
		order := c.Perm(len(ids))
		for _, i := range order {
			id := ids[i]
			d.partial(w, d.sk[id])
			delete(left, id)
			if w.Value[id] != nil {
				c.Fatal("partial", "%s: after its partial decryption %q is still a party of the ciphertext", d.name, id)
			}
			CheckShape(c, "partial decryption", w, left, level)
			if !EqualPoly(d.r, level, Phase(d.r, w, d.s), phase) {
				c.Fatal("partial", "%s: the partial decryption of %q (order %v of %q) changed what the ciphertext decrypts to", d.name, id, order, ids)
			}
		}
		// the final decryption from the constant component alone
		got3 := d.decrypt(w, skSet())
		if ok, at := floatsClose(got3, got, 0); !ok {
			c.Fatal("partial", "%s: partial decryptions in order %v of %q: value %d is %v, Decrypt gave %v", d.name, order, ids, at, got3[at], got[at])
		}
		c.Eval("%s/order%v", shape, order)
	}
	unchanged("PartialDecrypt on a copy")
	// several ciphertexts under decryption at once, by one decryptor: independent
	{
		n := c.Range(2, 3)
		ws := make([]*mkrlwe.Ciphertext, n)
		todo := make([][]int, n)
		for i := range ws {
			ws[i] = copyCT(ct)
			if i > 0 {
				for id, p := range ws[i].Value {
					if id == "0" || !c.Coin(1, 3) {
						for l := range p.Coeffs {
							for j := range p.Coeffs[l] {
								p.Coeffs[l][j] = c.Uint64() % d.r.Modulus[l]
							}
						}
					}
				}
			}
			todo[i] = c.Perm(len(ids))
		}
		phases := make([]*ring.Poly, n)
		for i := range ws {
			phases[i] = Phase(d.r, ws[i], d.s)
		}
		seq := ""
		for left := n * len(ids); left > 0; left-- {
			i := c.Intn(n)
			for len(todo[i]) == 0 {
				i = (i + 1) % n
			}
			id := ids[todo[i][0]]
			todo[i] = todo[i][1:]
			seq += fmt.Sprintf("%d%q ", i, id)
			d.partial(ws[i], d.sk[id])
			for j := range ws {
				if !EqualPoly(d.r, level, Phase(d.r, ws[j], d.s), phases[j]) {
					c.Fatal("partial", "%s: interleaved partial decryptions of %d ciphertexts (%s): ciphertext %d no longer decrypts to the same", d.name, n, seq, j)
				}
			}
			if c.Coin(1, 4) {
				d.decrypt(ct, skSet(mine...))
				for j := range ws {
					if !EqualPoly(d.r, level, Phase(d.r, ws[j], d.s), phases[j]) {
						c.Fatal("partial", "%s: decrypting another ciphertext after the partial decryptions %s changes what ciphertext %d decrypts to", d.name, seq, j)
					}
				}
			}
		}
		unchanged("the partial decryptions of others")
		c.Eval("%s/interleaved%d/%d", shape, n, len(ids))
	}
	// a party that is not involved cannot alter the ciphertext
	for _, id := range d.ids {
		if involved[id] {
			continue
		}
		w := copyCT(ct)
		Panics(func() { d.partial(w, d.sk[id]) })
		if s := before.diffRLWE(w); s != "" {
			c.Fatal("partial", "%s: the partial decryption by %q, who is not involved, changed the ciphertext: %s", d.name, id, s)
		}
		c.Eval("%s/not-involved", shape)
		break
	}
	// the key-level decryptor, to a plaintext of any level and domain
	dec := mkrlwe.NewDecryptor(d.params)
	for t := c.Range(1, 3); t > 0; t-- {
		pl := c.Range(0, d.params.MaxLevel())
		pt := rlwe.NewPlaintext(d.params.Parameters, pl)
		for i := range pt.Value.Coeffs {
			for j := range pt.Value.Coeffs[i] {
				pt.Value.Coeffs[i][j] = c.Uint64() % d.r.Modulus[i]
			}
		}
		pt.Value.IsNTT = c.Coin(1, 2)
		dom := pt.Value.IsNTT
		dec.Decrypt(ct, skSet(sup...), pt)
		unchanged("mkrlwe Decrypt")
		l := mini(level, pl)
		if pt.Level() != l {
			c.Fatal("level", "decryption of a level %d ciphertext into a level %d plaintext has level %d", level, pl, pt.Level())
		}
		if pt.Value.IsNTT != dom {
			c.Fatal("domain", "decryption changed the domain flag of its plaintext")
		}
		if !EqualPoly(d.r, l, CoeffPoly(d.r, l, pt.Value), phase) {
			c.Fatal("result", "mkrlwe.Decrypt (ciphertext level %d NTT %v, plaintext level %d NTT %v) is not the phase", level, ct.Value["0"].IsNTT, pl, dom)
		}
		c.Eval("%s/rlwe-lvl%d-%d/%v%v", shape, level, pl, ct.Value["0"].IsNTT, dom)
	}
	for id, k := range d.sk {
		if s := diffLimbs(keyHash[id], snapSK(k)); s != "" {
			c.Fatal("input-changed", "decryption changed the secret key of %q: %s", id, s)
		}
	}
}

// copyCT is the oracle's own deep copy.
func copyCT(ct *mkrlwe.Ciphertext) *mkrlwe.Ciphertext {
	o := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id, p := range ct.Value {
		o.Value[id] = &ring.Poly{Coeffs: copyLimbs(p.Coeffs), IsNTT: p.IsNTT, IsMForm: p.IsMForm}
	}
	return o
}

func init() {
	Register(&Prop{ID: "C15", Quick: 1400, Thorough: 28000, MinEvals: 800, Run: runC15,
		Rule:        "one evaluation = one decryption attempt with a chosen set of keys (exact, superset, with one or more missing, wrong key) or one ordering of partial decryptions; distinct = (parameter shape, kind of key set, order)",
		Assumptions: []string{"refused means a panic, the library's way to refuse"}})
}
