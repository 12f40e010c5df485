package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C18

// guarded runs a list of operations on objects whose polynomials all lie
// between guard words, twice, with different guard contents: the guards must
// survive and must not influence the results.
type guarded struct {
	c    *Case
	s    *Slabs
	tag  string
	logs [2][]uint64
	name []string
	pass int
}

func (g *guarded) did(what string, h uint64) {
	if d := g.s.Check(); d != "" {
		g.c.Fatal("out-of-bounds", "%s: %s", what, d)
	}
	g.logs[g.pass] = append(g.logs[g.pass], h)
	if g.pass == 0 {
		g.name = append(g.name, what)
	} else {
		i := len(g.logs[1]) - 1
		if i < len(g.name) && (g.name[i] != what || g.logs[0][i] != h) {
			g.c.Fatal("out-of-bounds-read", "%s (operation %d): the result depends on memory next to the polynomials or on limbs above the level", what, i)
		}
		g.c.Eval("%s/%s", g.tag, what)
	}
}

func runC18(c *Case) {
	// index / 2: both sanitizer builds see every kind
	switch (c.Index / 2) % 4 {
	case 0, 1:
		memCKKS(c)
	case 2:
		memBFV(c)
	default:
		memBasis(c)
	}
}

func smallLogN(c *Case) CKKSOpt {
	o := CKKSOpt{MaxLogN: 8, MaxQ: 6}
	if c.Coin(1, 3) {
		o.MaxLogN = 4
	}
	return o
}

// upper fills the limbs of p above level with junk, different for each pass.
func upper(p *ring.Poly, level int, pattern uint64) {
	for i := level + 1; i < len(p.Coeffs); i++ {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = pattern ^ uint64(i*1000003+j)
		}
	}
}

func upperChanged(p *ring.Poly, level int, pattern uint64) string {
	for i := level + 1; i < len(p.Coeffs); i++ {
		for j := range p.Coeffs[i] {
			if p.Coeffs[i][j] != pattern^uint64(i*1000003+j) {
				return fmt.Sprintf("coefficient %d of limb %d, above the level %d of the operation, was written", j, i, level)
			}
		}
	}
	return ""
}

func hashPoly(p *ring.Poly, level int) (h uint64) {
	for i := 0; i <= level; i++ {
		hashU64(&h, p.Coeffs[i])
	}
	return
}

func memCKKS(c *Case) {
	spec := RandCKKSSpec(c.Rng, smallLogN(c))
	if c.Index < 2 {
		spec = RandCKKSSpec(c.Rng, CKKSOpt{MinLogN: 11, MaxLogN: 11, MaxQ: 3})
	}
	k := NewCKKS(c, spec, c.Range(1, 3))
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	rots := []int{c.Range(-h, h), c.Range(1, h-1)}
	for _, x := range rots {
		k.NeedRot(x)
	}
	var cts []*mkckks.Ciphertext
	for i := 0; i < 3; i++ {
		cts = append(cts, oneInput(c, k).ct)
	}
	full := makeInput(c, k, k.Subset(), k.P.MaxLevel(), k.P.Scale(), 1).ct
	var ntt *mkckks.Ciphertext
	{
		ntt = TruncCT(k.R, full, full.Level())
		toNTT(k, ntt)
	}
	msg := k.RandMsg(1)
	val, _, _, _ := randConst(c)
	cplx := complex(c.Sym(3), c.Sym(3))
	patterns := []uint64{c.Uint64(), c.Uint64()}
	lv := c.Range(0, k.P.MaxLevel())
	g := &guarded{c: c, tag: "ckks/" + spec.Shape()}
	c.Logf("level of the generic operations %d, rotations %v", lv, rots)
	for pass := 0; pass < 2; pass++ {
		SeedLibrary("C18/", c.Seed, "/", c.Index)
		g.pass = pass
		if pass == 0 {
			g.s = NewSlabs(patterns[0])
			g.s.Walk("keys", k.RlkSet)
			g.s.Walk("keys", k.RtkSet)
			g.s.Walk("keys", k.CjkSet)
			g.s.Walk("keys", k.SKSet)
			g.s.Walk("keys", k.PKSet)
			g.s.Walk("CRS", &k.P.Parameters.CRS)
			for i, x := range cts {
				g.s.Walk(fmt.Sprint("operand", i), x.Ciphertext)
			}
			g.s.Walk("operand", full.Ciphertext)
			g.s.Walk("operand", ntt.Ciphertext)
		} else {
			g.s.Repaint(patterns[1])
		}
		pat := patterns[pass]
		kg := mkrlwe.NewKeyGenerator(k.P.Parameters)
		enc := mkckks.NewEncryptor(k.P)
		dec := mkckks.NewDecryptor(k.P)
		ev := mkckks.NewEvaluator(k.P)
		ks := mkrlwe.NewKeySwitcher(k.P.Parameters)
		for n, o := range map[string]interface{}{"key generator": kg, "encryptor": enc, "decryptor": dec, "evaluator": ev, "key switcher": ks} {
			g.s.Walk(n, o)
		}
		out := func(what string, ct *mkckks.Ciphertext) *mkckks.Ciphertext {
			g.did(what, hashCT(k.R, ct.Ciphertext, ct.Scale))
			g.s.Walk(what+" result", ct.Ciphertext)
			return ct
		}
		newCT := func(ids *mkrlwe.IDSet, level int) *mkckks.Ciphertext {
			ct := mkckks.NewCiphertext(k.P, ids, level, 1)
			g.s.Walk("receiver", ct.Ciphertext)
			return ct
		}
		id := k.IDs[0]
		out("encrypt", enc.EncryptMsgNew(msg, k.PK[id]))
		{
			ct := newCT(NewIDs(id), k.P.MaxLevel())
			enc.EncryptMsg(msg, k.PK[id], ct)
			out("encrypt-into", ct)
			pt := enc.EncodeMsgNew(msg)
			g.s.Walk("plaintext", pt)
			ct = newCT(NewIDs(id), lv)
			enc.EncryptPtxt(pt, k.PK[id], ct)
			out("encrypt-low", ct)
			out("mul-ptxt", ev.MulPtxtNew(cts[0], pt))
		}
		for i, x := range cts {
			y := cts[(i+1)%3]
			g.did("decrypt", hashComplex(dec.Decrypt(x, k.SKSet).Value))
			out("add", ev.AddNew(x, y))
			out("sub", ev.SubNew(x, y))
			out("add-scaled", ev.AddNew(x, &mkckks.Ciphertext{Ciphertext: y.Ciphertext, Scale: x.Scale * 5}))
			out("mul", ev.MulRelinNew(x, y, k.RlkSet))
			out("rot", ev.RotateNew(x, rots[i%2], k.RtkSet))
			out("conj", ev.ConjugateNew(x, k.CjkSet))
			ct := newCT(x.IDSet(), x.Level())
			ev.MultByConst(x, val, ct)
			out("const", ct)
			ct = newCT(x.IDSet(), x.Level())
			ev.MultByConst(x, cplx, ct)
			out("const-complex", ct)
			if x.Level() > 0 {
				ct = newCT(x.IDSet(), x.Level())
				ev.Rescale(x, math.Max(2, x.Scale/math.Ldexp(1, 30)), ct)
				out("rescale-into", ct)
			}
			out("drop", ev.DropLevelNew(x, x.Level()/2))
		}
		fh := ev.HoistedForm(full)
		g.s.Walk("hoisted form", fh)
		out("mul-hoisted", ev.MulRelinHoistedNew(full, full, fh, fh, k.RlkSet))
		out("rot-hoisted", ev.RotateHoistedNew(full, firstCRSRot(k), fh, k.RtkSet))
		out("mul-ntt", ev.MulRelinNew(ntt, ntt, k.RlkSet))
		g.did("decrypt-ntt", hashComplex(dec.Decrypt(ntt, k.SKSet).Value))
		// key generation
		sk, pk := kg.GenKeyPair(id)
		g.s.Walk("key", sk)
		g.s.Walk("key", pk)
		g.did("keypair", hashPoly(pk.Value[0].Q, k.P.MaxLevel()))
		rlk := kg.GenRelinearizationKey(sk, kg.GenSecretKey(id))
		var hh uint64
		for _, v := range rlk.Value {
			hashSwk(&hh, v)
		}
		g.did("rlk", hh)
		hh = 0
		hashSwk(&hh, kg.GenRotationKey(1, sk).Value)
		hashSwk(&hh, kg.GenConjugationKey(sk).Value)
		g.did("rotk", hh)
		swk := mkrlwe.NewSwitchingKey(k.P.Parameters)
		g.s.Walk("switching key", swk)
		kg.GenSwitchingKey(sk, swk)
		hh = 0
		hashSwk(&hh, swk)
		g.did("swk", hh)
		hh = 0
		for _, s := range []*mkrlwe.SecretKey{kg.GenSecretKeyGaussian(id), kg.GenSecretKeySparse(k.N/2+1, id)} {
			hashU64(&hh, []uint64{hashPoly(s.Value.Q, k.P.MaxLevel()), hashPoly(s.Value.P, k.P.PCount()-1)})
		}
		g.did("secrets", hh)
		defs := mkrlwe.NewRotationKeySet()
		kg.GenDefaultRotationKeys(sk, defs)
		hh = 0
		for b := 1; b < k.N/2; b *= 2 {
			hashSwk(&hh, defs.GetRotationKey(id, uint(b)).Value)
		}
		g.did("default-rotk", hh)
		// encryption and arithmetic in the NTT domain
		{
			ct := &mkckks.Ciphertext{Ciphertext: mkrlwe.NewCiphertextNTT(k.P.Parameters, NewIDs(id), lv), Scale: 1}
			g.s.Walk("receiver", ct.Ciphertext)
			pt := enc.EncodeMsgNew(msg)
			g.s.Walk("plaintext", pt)
			enc.EncryptPtxt(pt, k.PK[id], ct)
			out("encrypt-ntt", ct)
			ct = newCT(ntt.IDSet(), ntt.Level())
			for _, p := range ct.Value {
				p.IsNTT = true
			}
			ev.MultByConst(ntt, cplx, ct)
			out("const-ntt", ct)
			if ntt.Level() > 0 {
				if r, err := ev.RescaleNew(ntt, math.Max(2, ntt.Scale/math.Ldexp(1, 30))); err == nil {
					out("rescale-ntt", r)
				}
			}
			out("partial", func() *mkckks.Ciphertext {
				cp := cts[0].CopyNew()
				g.s.Walk("copy", cp.Ciphertext)
				dec.PartialDecrypt(cp, k.SK[keys(IDsOf(cp.Ciphertext))[0]])
				return cp
			}())
		}
		// generic operations into a receiver below the operand: the operand's upper limbs have no influence
		{
			x := TruncCT(k.R, full, full.Level())
			for _, p := range x.Value {
				upper(p, lv, pat)
			}
			g.s.Walk("operand", x.Ciphertext)
			rot := firstCRSRot(k)
			hx := mkrlwe.NewHoistedCiphertext()
			for id := range IDsOf(x.Ciphertext) {
				hx.Value[id] = mkrlwe.NewSwitchingKey(k.P.Parameters)
			}
			g.s.Walk("hoisted form", hx)
			for id, v := range hx.Value {
				ks.Decompose(lv, x.Value[id], v)
			}
			for _, op := range []string{"mul", "conj", "rot", "mul-hoisted", "rot-hoisted"} {
				r := newCT(x.IDSet(), lv)
				switch op {
				case "mul":
					ks.MulAndRelin(x.Ciphertext, x.Ciphertext, k.RlkSet, r.Ciphertext)
				case "conj":
					ks.Conjugate(x.Ciphertext, k.CjkSet, r.Ciphertext)
				case "mul-hoisted":
					ks.MulAndRelinHoisted(x.Ciphertext, x.Ciphertext, hx, hx, k.RlkSet, r.Ciphertext)
				default:
					if rot == 0 {
						continue
					}
					if op == "rot" {
						ks.Rotate(x.Ciphertext, rot, k.RtkSet, r.Ciphertext)
					} else {
						ks.RotateHoisted(x.Ciphertext, rot, hx, k.RtkSet, r.Ciphertext)
					}
				}
				out("generic-"+op, r)
				for id, p := range x.Value {
					if d := upperChanged(p, lv, pat); d != "" {
						c.Fatal("level", "generic %s, operand component %q: %s", op, id, d)
					}
				}
			}
		}
		// operations with an explicit level: the limbs above are neither read nor written
		a := randPoly(NewRng("C18a/", c.Seed, "/", c.Index), k.R, k.P.MaxLevel())
		upper(a, lv, pat)
		res := k.R.NewPoly()
		upper(res, lv, ^pat)
		g.s.Walk("operand", a)
		g.s.Walk("receiver", res)
		ks.ExternalProduct(lv, a, rlk.Value[0], res)
		g.did("external-product", hashPoly(res, lv))
		if d := upperChanged(res, lv, ^pat); d != "" {
			c.Fatal("level", "ExternalProduct: %s", d)
		}
		ad := mkrlwe.NewSwitchingKey(k.P.Parameters)
		for _, v := range ad.Value {
			upper(v.Q, -1, ^pat)
			upper(v.P, -1, ^pat)
		}
		g.s.Walk("digits", ad)
		ks.Decompose(lv, a, ad)
		hh = 0
		beta := k.P.Beta(lv)
		for i, v := range ad.Value {
			from := lv
			if i >= beta {
				from = -1
				if d := upperChanged(v.P, -1, ^pat); d != "" {
					c.Fatal("level", "Decompose, unused digit %d: %s", i, d)
				}
			} else {
				h1 := hashPoly(v.Q, lv)
				h2 := hashPoly(v.P, k.P.PCount()-1)
				hashU64(&hh, []uint64{h1, h2})
			}
			if d := upperChanged(v.Q, from, ^pat); d != "" {
				c.Fatal("level", "Decompose, digit %d: %s", i, d)
			}
		}
		g.did("decompose", hh)
		if d := upperChanged(a, lv, pat); d != "" {
			c.Fatal("level", "operand: %s", d)
		}
		res2 := k.R.NewPoly()
		upper(res2, lv, ^pat)
		g.s.Walk("receiver", res2)
		ks.ExternalProductHoisted(lv, ad, rlk.Value[0], res2)
		g.did("external-product-hoisted", hashPoly(res2, lv))
		if d := upperChanged(res2, lv, ^pat); d != "" {
			c.Fatal("level", "ExternalProductHoisted: %s", d)
		}
		if pass == 0 {
			c.Stat("guarded arrays", float64(g.s.Count()))
		}
	}
}

// firstCRSRot is a rotation with a key of its own that is in the set, or 0.
func firstCRSRot(k *CKKS) int {
	for b := 1; b < k.N/2; b *= 2 {
		ok := true
		for _, id := range k.IDs {
			if k.RtkSet.Value[id] == nil || k.RtkSet.Value[id][uint(b)] == nil {
				ok = false
			}
		}
		if ok {
			return b
		}
	}
	return 0
}

func memBFV(c *Case) {
	o := BFVOpt{MinBits: 40, MaxLogN: 7, MaxQ: 4}
	if c.Coin(1, 3) {
		o.MaxLogN = 4
	}
	spec := RandBFVSpec(c.Rng, o)
	k := NewBFV(c, spec, c.Range(1, 3))
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	rots := []int{c.Range(-h, h), 1}
	for _, x := range rots {
		k.NeedRot(x)
	}
	var cts []*mkbfv.Ciphertext
	for i := 0; i < 3; i++ {
		cts = append(cts, makeBInput(c, k, Subset(c.Rng, k.IDs)).ct)
	}
	msg := k.RandMsg()
	patterns := []uint64{c.Uint64(), c.Uint64()}
	inQ := randPoly(c.Rng, k.R, k.P.MaxLevel())
	inR := randPoly(c.Rng, k.P.RingR(), len(k.P.RingR().Modulus)-1)
	g := &guarded{c: c, tag: "bfv/" + spec.Shape()}
	for pass := 0; pass < 2; pass++ {
		SeedLibrary("C18/", c.Seed, "/", c.Index)
		g.pass = pass
		if pass == 0 {
			g.s = NewSlabs(patterns[0])
			g.s.Walk("keys", k.RlkSet)
			g.s.Walk("keys", k.RtkSet)
			g.s.Walk("keys", k.CjkSet)
			g.s.Walk("keys", k.SKSet)
			g.s.Walk("CRS", &k.P.Parameters.CRS)
			for i, x := range cts {
				g.s.Walk(fmt.Sprint("operand", i), x.Ciphertext)
			}
		} else {
			g.s.Repaint(patterns[1])
		}
		kg := mkbfv.NewKeyGenerator(k.P)
		enc := mkbfv.NewEncryptor(k.P)
		dec := mkbfv.NewDecryptor(k.P)
		ev := mkbfv.NewEvaluator(k.P)
		conv := mkbfv.NewFastBasisExtender(k.P.RingP(), k.R, k.P.RingQMul(), k.P.RingR())
		for n, o := range map[string]interface{}{"key generator": kg, "encryptor": enc, "decryptor": dec, "evaluator": ev, "extender": conv} {
			g.s.Walk(n, o)
		}
		out := func(what string, ct *mkbfv.Ciphertext) {
			g.did(what, hashCT(k.R, ct.Ciphertext, 0))
			g.s.Walk(what+" result", ct.Ciphertext)
		}
		ids := func(m *mkbfv.Message) (h uint64) {
			for _, v := range m.Value {
				hashU64(&h, []uint64{uint64(v)})
			}
			return
		}
		id := k.IDs[0]
		out("encrypt", enc.EncryptMsgNew(msg, k.PK[id]))
		ct := mkbfv.NewCiphertext(k.P, NewIDs(id))
		g.s.Walk("receiver", ct.Ciphertext)
		enc.EncryptMsg(msg, k.PK[id], ct)
		out("encrypt-into", ct)
		for i, x := range cts {
			y := cts[(i+1)%3]
			g.did("decrypt", ids(dec.Decrypt(x, k.SKSet)))
			out("add", ev.AddNew(x, y))
			out("sub", ev.SubNew(x, y))
			out("mul", ev.MulRelinNew(x, y, k.RlkSet))
			out("square", ev.MulRelinNew(x, x, k.RlkSet))
			out("rot", ev.RotateNew(x, rots[i%2], k.RtkSet))
			out("conj", ev.ConjugateNew(x, k.CjkSet))
		}
		sk, pk := kg.GenKeyPair(id)
		g.s.Walk("key", sk)
		g.s.Walk("key", pk)
		rlk := kg.GenRelinearizationKey(sk, kg.GenSecretKey(id))
		var hh uint64
		for _, w := range rlk.Value {
			for _, v := range w.Value {
				hashSwk(&hh, v)
			}
		}
		g.did("rlk", hh)
		a, r := inQ.CopyNew(), k.P.RingR().NewPoly()
		g.s.Walk("operand", a)
		g.s.Walk("receiver", r)
		conv.ModUpQtoR(a, r)
		g.did("modup", hashPoly(r, len(r.Coeffs)-1))
		b, q := inR.CopyNew(), k.R.NewPoly()
		g.s.Walk("operand", b)
		g.s.Walk("receiver", q)
		conv.Quantize(b, q, k.T)
		g.did("quantize", hashPoly(q, len(q.Coeffs)-1))
		r = k.P.RingR().NewPoly()
		g.s.Walk("receiver", r)
		conv.Rescale(a, r)
		g.did("rescale", hashPoly(r, len(r.Coeffs)-1))
		if pass == 0 {
			c.Stat("guarded arrays", float64(g.s.Count()))
		}
	}
}

// memBasis: the basis extension kernels at every combination of levels.
func memBasis(c *Case) {
	spec := RandRLWESpec(c.Rng, 8, 6)
	if c.Coin(1, 3) {
		spec = RandRLWESpec(c.Rng, 4, 8)
	}
	p := NewRLWEParams(spec)
	c.Logf("generic %v", spec)
	rq, rp := p.RingQ(), p.RingP()
	mq, mp := len(rq.Modulus)-1, len(rp.Modulus)-1
	patterns := []uint64{c.Uint64(), c.Uint64()}
	g := &guarded{c: c, tag: fmt.Sprintf("basis/n%d/g%d/P%d", spec.LogN, spec.Gamma, len(spec.P))}
	g.s = NewSlabs(patterns[0])
	base := randPoly(c.Rng, rq, mq)
	baseP := randPoly(c.Rng, rp, mp)
	inQ, inP, outQ, outP := rq.NewPoly(), rp.NewPoly(), rq.NewPoly(), rp.NewPoly()
	for n, x := range map[string]*ring.Poly{"Q operand": inQ, "P operand": inP, "Q receiver": outQ, "P receiver": outP} {
		g.s.Wrap(n, x)
	}
	type step struct{ op, lq, lp, b int }
	var steps []step
	for lq := 0; lq <= mq; lq++ {
		for lp := 0; lp <= mp; lp++ {
			for op := 0; op < 6; op++ {
				if op == 5 && lp != mp {
					continue
				}
				steps = append(steps, step{op, lq, lp, c.Intn(p.Beta(lq))})
			}
		}
	}
	for pass := 0; pass < 2; pass++ {
		g.pass = pass
		g.s.Repaint(patterns[pass])
		pat := patterns[pass]
		ext := mkrlwe.NewFastBasisExtender(rq, rp)
		dcmp := mkrlwe.NewDecomposer(rq, rp, p.Gamma())
		g.s.Walk("extender", ext)
		g.s.Walk("decomposer", dcmp)
		for _, st := range steps {
			lq, lp := st.lq, st.lp
			for i := range base.Coeffs {
				copy(inQ.Coeffs[i], base.Coeffs[i])
			}
			for i := range baseP.Coeffs {
				copy(inP.Coeffs[i], baseP.Coeffs[i])
			}
			upper(inQ, lq, pat)
			upper(inP, lp, pat)
			upper(outQ, -1, ^pat)
			upper(outP, -1, ^pat)
			wq, wp := -1, -1 // limbs the operation may write
			var name string
			switch st.op {
			case 0:
				name = "ModUpQtoP"
				ext.ModUpQtoP(lq, lp, inQ, outP)
				wp = lp
			case 1:
				name = "ModUpPtoQ"
				ext.ModUpPtoQ(lp, lq, inP, outQ)
				wq = lq
			case 2:
				name = "ModDownQPtoQ"
				ext.ModDownQPtoQ(lq, lp, inQ, inP, outQ)
				wq = lq
			case 3:
				name = "ModDownQPtoP"
				ext.ModDownQPtoP(lq, lp, inQ, inP, outP)
				wp = lp
			case 4:
				name = "ModDownQPtoQNTT"
				ext.ModDownQPtoQNTT(lq, lp, inQ, inP, outQ)
				wq = lq
			case 5:
				name = "DecomposeAndSplit"
				dcmp.DecomposeAndSplit(lq, lp, p.Alpha(), st.b, p.Gamma(), inQ, outQ, outP)
				wq, wp = lq, lp
			}
			var hh uint64
			hashU64(&hh, []uint64{hashPoly(outQ, wq), hashPoly(outP, wp)})
			g.did(fmt.Sprintf("%s/%d/%d", name, lq, lp), hh)
			for _, d := range []string{upperChanged(outQ, wq, ^pat), upperChanged(outP, wp, ^pat), upperChanged(inQ, lq, pat), upperChanged(inP, lp, pat)} {
				if d != "" {
					c.Fatal("level", "%s(%d,%d): %s", name, lq, lp, d)
				}
			}
		}
	}
}

func init() {
	Register(&Prop{ID: "C18", Quick: 64, Thorough: 1600, MinEvals: 600, Run: runC18, Variants: []string{"race", "asan"},
		Rule:        "one evaluation = one operation, run twice under a sanitizer on polynomials between guard words of different contents: guards and limbs above the level intact, same result; distinct = (scheme, parameter shape, operation, levels)",
		Assumptions: []string{"half of the cases run under AddressSanitizer, half under the race detector's checkptr instrumentation", "an access that stays inside the limb it was meant for is in bounds"}})
}
