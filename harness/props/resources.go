package props

import (
	"fmt"
	"runtime"
	"time"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C24

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// goroutines waits for those that are about to end.
func goroutines(limit int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 200 && n > limit; i++ {
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

// step is one kind of work; what it makes is dropped.
type step struct {
	name string
	run  func()
}

// steady runs windows of identical work and watches the live heap and the
// number of goroutines at their ends.
func steady(c *Case, scheme string, steps []step, reps int) {
	const warm, judged, more = 2, 4, 24
	g0 := 0
	var heap []int64
	round := func() {
		for i := 0; i < reps; i++ {
			for _, s := range steps {
				s.run()
			}
		}
		heap = append(heap, liveHeap())
	}
	for w := 0; w < warm+judged; w++ {
		round()
		if w == 0 {
			g0 = runtime.NumGoroutine()
		}
	}
	if n := goroutines(g0); n > g0 {
		// workers started once, however late, are not left behind each time
		for w := 0; w < warm+judged; w++ {
			round()
		}
		if n2 := goroutines(n); n2 > n {
			c.Fatal("goroutines", "%s: %d goroutines after the first round of work, %d after %d rounds, %d after %d: operations leave goroutines behind", scheme, g0, n, warm+judged, n2, 2*(warm+judged))
		}
		heap = heap[warm+judged:]
	}
	names := ""
	for _, s := range steps {
		names += " " + s.name
	}
	limit := int64(24 * reps)
	if reps == 1 {
		// large polynomials: any of them kept is far more than this
		limit = 8192
	}
	least := int64(1) << 60
	for w := warm; w < len(heap); w++ {
		if d := heap[w] - heap[w-1]; d < least {
			least = d
		}
		if w == len(heap)-1 && least > limit && len(heap) < warm+judged+more {
			// a cache that is still filling up comes to rest, a leak does not
			round()
		}
	}
	if least > limit {
		c.Fatal("growth", "%s: the live heap grows with every round of the same work by at least %d bytes (%d times%s; heap %v), although its results are dropped", scheme, least, reps, names, heap)
	}
	c.Stat("least growth/limit", float64(least)/float64(limit))
}

// marathon repeats one kind of work very often: what each repetition leaves
// behind may be as little as an entry of a table, which grows by steps.
func marathon(c *Case, scheme string, s step) {
	m := c.Range(1200, 2000)
	if s.name == "churn" || s.name == "objects" || s.name == "keys" {
		m = 300
	}
	for i := 0; i < m/4; i++ {
		s.run()
	}
	g0 := goroutines(runtime.NumGoroutine())
	var grown, limit int64
	for window := 0; window < 4; window++ {
		h0 := liveHeap()
		for i := 0; i < m; i++ {
			s.run()
		}
		grown, limit = liveHeap()-h0, int64(2*m+6144)
		if grown <= limit {
			break
		}
		if window < 3 {
			// a cache that is still filling up comes to rest, a leak does not
			m *= 2
		}
	}
	if n := goroutines(g0); n > g0 {
		for i := 0; i < m; i++ {
			s.run()
		}
		if n2 := goroutines(n); n2 > n {
			c.Fatal("goroutines", "%s: %d goroutines before many times %s, %d after, %d after %d more times", scheme, g0, s.name, n, n2, m)
		}
	}
	if grown > limit {
		c.Fatal("growth", "%s: the live heap grew by %d bytes over %d times %s (and in each window before), although the results are dropped", scheme, grown, m, s.name)
	}
	c.Stat("marathon growth/limit", float64(grown)/float64(limit))
	c.Eval("%s/marathon/%s", scheme, s.name)
}

func runC24(c *Case) {
	reps := c.Range(6, 10)
	if c.Index < 2 {
		reps = 1
	}
	if c.Index%2 == 0 {
		ckksSteady(c, reps)
	} else {
		bfvSteady(c, reps)
	}
}

// pickSteps keeps some of the steps: a leak shows as well among few of them,
// and each mixture is another history.
func pickSteps(c *Case, steps []step) []step {
	c.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	return steps[:c.Range(len(steps)/3, len(steps))]
}

func ckksSteady(c *Case, reps int) {
	spec := RandCKKSSpec(c.Rng, CKKSOpt{MaxLogN: Pick(c.Rng, 4, 5, 7), MaxQ: 5})
	np := c.Range(1, 3)
	if c.Index < 2 {
		// once at the size of real parameters
		spec, np = bigSpec(c, 3), 2
		spec.LogN, spec.LogSlots = 13, mini(spec.LogSlots, 12)
	}
	k := NewCKKS(c, spec, np)
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	custom := c.Range(1, h-1)
	if _, in := k.P.CRS[custom]; !in {
		k.P.AddCRS(custom)
	}
	arb := c.Range(1, h-1)
	k.NeedRot(custom)
	k.NeedRot(arb)
	a, b := oneInput(c, k).ct, oneInput(c, k).ct
	encoder := ckks.NewEncoder(k.CP)
	ks := mkrlwe.NewKeySwitcher(k.P.Parameters)
	into := func(lv int) *mkrlwe.Ciphertext { return mkckks.NewCiphertext(k.P, a.IDSet(), lv, 1).Ciphertext }
	m := k.RandMsg(1)
	id := k.IDs[0]
	n := 0
	steps := []step{
		{"encrypt", func() { k.Enc.EncryptMsgNew(m, k.PK[id]) }},
		{"encrypt-copy", func() {
			x := mkckks.NewMessage(k.P)
			copy(x.Value, m.Value)
			k.Enc.EncryptMsg(x, k.PK[id], mkckks.NewCiphertext(k.P, NewIDs(id), k.P.MaxLevel(), k.P.Scale()))
		}},
		{"decrypt", func() { k.Dec.Decrypt(a.CopyNew(), k.SKSet) }},
		{"add", func() { k.Eval.AddNew(a.CopyNew(), a.CopyNew()) }},
		{"sub", func() { k.Eval.SubNew(a.CopyNew(), a.CopyNew()) }},
		{"mul", func() { k.Eval.MulRelinNew(a.CopyNew(), b.CopyNew(), k.RlkSet) }},
		{"square", func() { x := a.CopyNew(); k.Eval.MulRelinNew(x, x, k.RlkSet) }},
		{"mul-hoisted", func() {
			x, y := a.CopyNew(), b.CopyNew()
			k.Eval.MulRelinHoistedNew(x, y, k.Eval.HoistedForm(x), nil, k.RlkSet)
		}},
		{"rotate", func() { k.Eval.RotateNew(a.CopyNew(), arb, k.RtkSet) }},
		{"rotate-hoisted", func() { x := a.CopyNew(); k.Eval.RotateHoistedNew(x, custom, k.Eval.HoistedForm(x), k.RtkSet) }},
		{"conjugate", func() { k.Eval.ConjugateNew(a.CopyNew(), k.CjkSet) }},
		{"const", func() {
			n++
			k.Eval.MultByConst(a, complex(float64(n), 0.5), mkckks.NewCiphertext(k.P, a.IDSet(), a.Level(), 0))
		}},
		{"plaintext", func() {
			pt := ckks.NewPlaintext(k.CP, k.P.MaxLevel(), k.P.Scale())
			encoder.Encode(pt, m.Value, k.P.LogSlots())
			k.Eval.MulPtxtNew(a.CopyNew(), pt)
		}},
		{"rescale", func() {
			if a.Level() > 0 {
				if _, err := k.Eval.RescaleNew(a.CopyNew(), 1); err != nil {
					c.Fatal("result", "RescaleNew: %v", err)
				}
			}
		}},
		{"drop", func() { k.Eval.DropLevelNew(a.CopyNew(), a.Level()) }},
		{"objects", func() {
			mkckks.NewEvaluator(k.P)
			mkckks.NewEncryptor(k.P)
			mkckks.NewDecryptor(k.P)
			mkrlwe.NewKeyGenerator(k.P.Parameters)
			mkrlwe.NewKeySwitcher(k.P.Parameters)
		}},
		{"churn", func() {
			// a party that joins, works and leaves
			n++
			id := fmt.Sprintf("guest %d", n)
			sk, pk := k.Kgen.GenKeyPair(id)
			k.SKSet.AddSecretKey(sk)
			k.PKSet.AddPublicKey(pk)
			k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(sk, k.Kgen.GenSecretKey(id)))
			k.RtkSet.AddRotationKey(k.Kgen.GenRotationKey(custom, sk))
			k.CjkSet.AddConjugationKey(k.Kgen.GenConjugationKey(sk))
			x := k.Enc.EncryptMsgNew(m, pk)
			x = k.Eval.MulRelinNew(x, b, k.RlkSet)
			x = k.Eval.RotateNew(x, 0, k.RtkSet)
			x = k.Eval.SubNew(k.Eval.AddNew(x, a), b)
			k.Dec.Decrypt(x, k.SKSet)
			k.SKSet.DelSecretKey(id)
			k.PKSet.DelPublicKey(id)
			k.RlkSet.DelRelinearizationKey(id)
			k.RtkSet.DelRotationKey(id, uint(custom))
			k.CjkSet.DelConjugationKey(id)
		}},
		{"partial", func() { x := a.CopyNew(); k.Dec.PartialDecrypt(x, k.SK[keys(IDsOf(x.Ciphertext))[0]]) }},
		{"encrypt-ptxt", func() {
			k.Enc.EncryptPtxt(k.Enc.EncodeMsgNew(m), k.PK[id], mkckks.NewCiphertext(k.P, NewIDs(id), 0, 1))
		}},
		{"generic-mul", func() { ks.MulAndRelin(a.Ciphertext, a.CopyNew().Ciphertext, k.RlkSet, into(a.Level())) }},
		{"generic-rotate", func() { ks.Rotate(a.CopyNew().Ciphertext, custom, k.RtkSet, into(0)) }},
		{"generic-conjugate", func() { ks.Conjugate(a.CopyNew().Ciphertext, k.CjkSet, into(a.Level())) }},
		{"keys", func() {
			id := k.IDs[0]
			sk := k.Kgen.GenSecretKeySparse(1+n%k.N, id)
			k.Kgen.GenSecretKeyGaussian(id)
			k.Kgen.GenPublicKey(sk)
			k.Kgen.GenRotationKey(custom, sk)
			k.Kgen.GenConjugationKey(sk)
			k.Kgen.GenRelinearizationKey(sk, sk)
			swk := mkrlwe.NewSwitchingKey(k.P.Parameters)
			k.Kgen.GenSwitchingKey(sk, swk)
		}},
		{"sets", func() {
			// containers made, filled, combined and dropped; entries replaced in a lasting one
			x := a.IDSet().Union(b.IDSet())
			x.Add("someone")
			y := x.CopyNew()
			y.Remove("someone")
			x.Intersection(y)
			cp := a.CopyNew()
			cp.PadCiphertext(x)
			k.RtkSet.AddRotationKey(k.RtkSet.GetRotationKey(k.IDs[0], uint(custom)))
			k.SKSet.AddSecretKey(k.SK[k.IDs[0]])
			k.CjkSet.AddConjugationKey(k.CjkSet.GetConjugationKey(k.IDs[0]))
		}},
		{"refused", func() {
			Panics(func() { k.Eval.RotateNew(a.CopyNew(), custom, mkrlwe.NewRotationKeySet()) })
			Panics(func() {
				k.Eval.MulRelinNew(a.CopyNew(), b.CopyNew(), mkrlwe.NewRelinearizationKeyKeySet(k.P.Parameters))
			})
		}},
	}
	often := steps[c.Index/2%len(steps)]
	steps = pickSteps(c, steps)
	steady(c, "ckks", steps, reps)
	if k.N <= 32 {
		marathon(c, "ckks", often)
	}
	for _, s := range steps {
		c.Eval("ckks/%s/%s", s.name, spec.Shape())
	}
}

func bfvSteady(c *Case, reps int) {
	spec := RandBFVSpec(c.Rng, BFVOpt{MinBits: 48, MinQ: 2, MaxQ: 4, MaxLogN: Pick(c.Rng, 5, 6, 7)})
	np := c.Range(1, 3)
	if c.Index < 2 {
		spec, np = bigBFVSpec(c, 2), 2
		spec.LogN = 13
	}
	k := NewBFV(c, spec, np)
	k.NeedRlk()
	k.NeedConj()
	arb := c.Range(1, k.N/2-1)
	k.NeedRot(arb)
	a, b := makeBInput(c, k, Subset(c.Rng, k.IDs)).ct, makeBInput(c, k, Subset(c.Rng, k.IDs)).ct
	m := k.RandMsg()
	id := k.IDs[0]
	n := 0
	steps := []step{
		{"encrypt", func() { k.Enc.EncryptMsgNew(m, k.PK[id]) }},
		{"encrypt-copy", func() {
			x := mkbfv.NewMessage(k.P)
			copy(x.Value, m.Value)
			k.Enc.EncryptMsg(x, k.PK[id], mkbfv.NewCiphertext(k.P, NewIDs(id)))
		}},
		{"decrypt", func() { k.Dec.Decrypt(a.CopyNew(), k.SKSet) }},
		{"add", func() { k.Eval.AddNew(a.CopyNew(), b.CopyNew()) }},
		{"sub", func() { k.Eval.SubNew(a.CopyNew(), b.CopyNew()) }},
		{"mul", func() { k.Eval.MulRelinNew(a.CopyNew(), b.CopyNew(), k.RlkSet) }},
		{"square", func() { x := a.CopyNew(); k.Eval.MulRelinNew(x, x, k.RlkSet) }},
		{"rotate", func() { k.Eval.RotateNew(a.CopyNew(), arb, k.RtkSet) }},
		{"conjugate", func() { k.Eval.ConjugateNew(a.CopyNew(), k.CjkSet) }},
		{"objects", func() {
			mkbfv.NewEvaluator(k.P)
			mkbfv.NewEncryptor(k.P)
			mkbfv.NewDecryptor(k.P)
			mkbfv.NewKeyGenerator(k.P)
			mkbfv.NewKeySwitcher(k.P)
		}},
		{"churn", func() {
			n++
			id := fmt.Sprintf("guest %d", n)
			sk, pk := k.Kgen.GenKeyPair(id)
			k.SKSet.AddSecretKey(sk)
			k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(sk, k.Kgen.GenSecretKey(id)))
			k.RtkSet.AddRotationKey(k.Kgen.GenRotationKey(1, sk))
			k.CjkSet.AddConjugationKey(k.Kgen.GenConjugationKey(sk))
			x := k.Eval.MulRelinNew(k.Enc.EncryptMsgNew(m, pk), b, k.RlkSet)
			x = k.Eval.SubNew(k.Eval.AddNew(x, a), b)
			k.Dec.Decrypt(x, k.SKSet)
			k.SKSet.DelSecretKey(id)
			k.RlkSet.DelRelinearizationKey(id)
			k.RtkSet.DelRotationKey(id, 1)
			k.CjkSet.DelConjugationKey(id)
		}},
		{"refused", func() {
			Panics(func() { k.Eval.RotateNew(a.CopyNew(), 1, mkrlwe.NewRotationKeySet()) })
			Panics(func() { k.Eval.MulRelinNew(a.CopyNew(), b.CopyNew(), mkbfv.NewRelinearizationKeyKeySet(k.P)) })
		}},
	}
	often := steps[c.Index/2%len(steps)]
	steps = pickSteps(c, steps)
	steady(c, "bfv", steps, reps)
	if k.N <= 64 {
		marathon(c, "bfv", often)
	}
	for _, s := range steps {
		c.Eval("bfv/%s/%s", s.name, spec.Shape())
	}
}

func init() {
	Register(&Prop{ID: "C24", Quick: 240, Thorough: 3000, MinEvals: 200, Run: runC24,
		Rule:        "one evaluation = one kind of work in a mixture repeated over six rounds, with the live heap (after two collections) and the goroutines measured after each; distinct = (scheme, kind of work, parameter shape)",
		Assumptions: []string{"growth below 24 bytes per repetition of the mixture is not reported; the same work is repeated, so that caches of bounded size fill up in the two rounds before the judged ones"}})
}
