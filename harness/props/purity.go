package props

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C16

// action is one operation on given inputs; run executes it with an evaluator.
type action struct {
	name  string
	run   func(ev interface{}) *mkckks.Ciphertext
	ins   []*mkrlwe.Ciphertext
	first *snap // result of the first execution
	out   *mkckks.Ciphertext
	hoist []*mkrlwe.HoistedCiphertext
	// hoistOf is the ciphertext object whose hoisted form was taken, refill
	// gives other contents to what is not among ins
	hoistOf *mkckks.Ciphertext
	refill  func() func()
}

// outSnap is a snapshot with coefficients reduced modulo the primes.
func outSnap(r *ring.Ring, ct *mkckks.Ciphertext) *snap {
	s := snapCT(ct)
	for _, l := range s.val {
		for i := range l {
			q := r.Modulus[i]
			for j := range l[i] {
				l[i][j] %= q
			}
		}
	}
	return s
}

func sameSnap(a, b *snap) string {
	if a.scale != b.scale {
		return fmt.Sprintf("scale %g instead of %g", b.scale, a.scale)
	}
	if len(a.val) != len(b.val) {
		return fmt.Sprintf("%d components instead of %d", len(b.val), len(a.val))
	}
	for id, v := range a.val {
		w, in := b.val[id]
		if !in {
			return fmt.Sprintf("component %q missing", id)
		}
		if a.ntt[id] != b.ntt[id] {
			return fmt.Sprintf("component %q: IsNTT %v instead of %v", id, b.ntt[id], a.ntt[id])
		}
		if d := diffLimbs(v, w); d != "" {
			return fmt.Sprintf("component %q: %s", id, d)
		}
	}
	return ""
}

type span struct{ lo, hi uintptr }

func spans(p *ring.Poly) (o []span) {
	for _, l := range p.Coeffs {
		if cap(l) > 0 {
			f := l[:cap(l)]
			o = append(o, span{uintptr(unsafe.Pointer(&f[0])), uintptr(unsafe.Pointer(&f[0])) + uintptr(8*len(f))})
		}
	}
	return
}

// shares tells whether two ciphertexts have storage in common.
func shares(a, b *mkrlwe.Ciphertext) string {
	for ida, p := range a.Value {
		sa := spans(p)
		for idb, q := range b.Value {
			if p == q {
				return fmt.Sprintf("component %q of one is component %q of the other", ida, idb)
			}
			for _, y := range spans(q) {
				for _, x := range sa {
					if x.lo < y.hi && y.lo < x.hi {
						return fmt.Sprintf("component %q of one shares memory with component %q of the other", ida, idb)
					}
				}
			}
		}
	}
	return ""
}

func hashSwk(h *uint64, v *mkrlwe.SwitchingKey) {
	for _, x := range v.Value {
		for _, l := range x.Q.Coeffs {
			hashU64(h, l)
		}
		for _, l := range x.P.Coeffs {
			hashU64(h, l)
		}
	}
}

func hashU64(h *uint64, v []uint64) {
	x := *h
	for _, y := range v {
		x = (x ^ y) * 0x9E3779B97F4A7C15
		x ^= x >> 29
	}
	*h = x ^ uint64(len(v))
}

func hashRot(set *mkrlwe.RotationKeySet, cj *mkrlwe.ConjugationKeySet, ids []string) (h uint64) {
	for _, id := range ids {
		var idxs []int
		for k := range set.Value[id] {
			idxs = append(idxs, int(k))
		}
		sortInts(idxs)
		for _, k := range idxs {
			hashSwk(&h, set.Value[id][uint(k)].Value)
		}
		if ck := cj.Value[id]; ck != nil {
			hashSwk(&h, ck.Value)
		}
	}
	return
}

func sortInts(v []int) {
	for i := 1; i < len(v); i++ {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

func hashCRS(p mkrlwe.Parameters) (h uint64) {
	var idxs []int
	for k := range p.CRS {
		idxs = append(idxs, k)
	}
	sortInts(idxs)
	for _, k := range idxs {
		hashSwk(&h, p.CRS[k])
	}
	return
}

func hoistHash(v *mkrlwe.HoistedCiphertext) map[string]uint64 {
	o := map[string]uint64{}
	for id, s := range v.Value {
		var h uint64
		hashSwk(&h, s)
		o[id] = h
	}
	return o
}

func runC16(c *Case) {
	if c.Index%3 == 2 {
		purityBFV(c)
	} else {
		purityCKKS(c)
	}
}

// judge runs an action with several evaluators and compares.
func judge(c *Case, r *ring.Ring, a *action, fresh func() interface{}, old interface{}) {
	var ins []*snap
	for _, x := range a.ins {
		ins = append(ins, snapRLWE(x))
	}
	check := func(who string) {
		for i, x := range a.ins {
			if d := ins[i].diffRLWE(x); d != "" {
				c.Fatal("input-changed", "%s with %s changed operand %d: %s", a.name, who, i, d)
			}
		}
	}
	o1 := a.run(old)
	check("the old evaluator")
	for i, x := range a.ins {
		if d := shares(o1.Ciphertext, x); d != "" {
			c.Fatal("alias", "%s: the result and operand %d: %s", a.name, i, d)
		}
	}
	o2 := a.run(fresh())
	check("a new evaluator")
	s1, s2 := outSnap(r, o1), outSnap(r, o2)
	if d := sameSnap(s2, s1); d != "" {
		c.Fatal("history", "%s: an evaluator that was used before and a new one give different results: %s", a.name, d)
	}
	if d := shares(o1.Ciphertext, o2.Ciphertext); d != "" {
		c.Fatal("alias", "%s: two results: %s", a.name, d)
	}
	a.first, a.out = s1, o1
}

func purityCKKS(c *Case) {
	spec := specFor(c, c.Index == 1)
	np := Parties(c.Rng, spec, 1, 4)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	rots := []int{}
	for i := 0; i < 3; i++ {
		rots = append(rots, c.Range(-h, h))
	}
	custom := c.Range(1, h-1)
	if _, in := k.P.CRS[custom]; !in {
		k.P.AddCRS(custom)
	}
	rots = append(rots, custom)
	for _, x := range rots {
		k.NeedRot(x)
	}
	// evaluators copy the parameters: all share the CRS map
	evs := []interface{}{mkckks.NewEvaluator(k.P), mkckks.NewEvaluator(k.P)}
	fresh := func() interface{} { return mkckks.NewEvaluator(k.P) }
	rlkHash := func() (x uint64) {
		for _, id := range k.IDs {
			for _, s := range k.RlkSet.Value[id].Value {
				hashSwk(&x, s)
			}
		}
		return
	}
	keys0 := []uint64{hashRot(k.RtkSet, k.CjkSet, k.IDs), rlkHash(), hashCRS(k.P.Parameters)}
	var pool []*mkckks.Ciphertext
	add := func() {
		in := oneInput(c, k)
		pool = append(pool, in.ct)
	}
	for i := 0; i < 3; i++ {
		add()
	}
	encoder := ckks.NewEncoder(k.CP)
	var done []*action
	rounds := c.Range(6, 12)
	if k.N > 4096 {
		rounds = 6
	} else if k.N <= 64 && c.Coin(1, 12) {
		rounds = c.Range(60, 140)
	}
	for i := 0; i < rounds; i++ {
		x, y := Pick(c.Rng, pool...), Pick(c.Rng, pool...)
		a := &action{ins: []*mkrlwe.Ciphertext{x.Ciphertext}}
		kind := Pick(c.Rng, "add", "sub", "mul", "mul", "square", "mulh", "const", "const", "ptxt", "rescale", "rescale-into", "drop", "rot", "rot", "roth", "conj", "again", "refused", "encrypt", "encrypt")
		ev := evs[c.Intn(2)]
		switch kind {
		case "add", "sub":
			if x.Ciphertext.Value["0"].IsNTT || y.Ciphertext.Value["0"].IsNTT {
				continue
			}
			a.ins = append(a.ins, y.Ciphertext)
			// scales an integer ratio apart go through the evaluator's pools
			if c.Coin(1, 2) {
				y = &mkckks.Ciphertext{Ciphertext: y.Ciphertext, Scale: x.Scale * float64(c.Range(2, 9))}
				if c.Coin(1, 2) {
					x, y = y, x
				}
			}
			if kind == "add" {
				a.run = func(ev interface{}) *mkckks.Ciphertext { return ev.(*mkckks.Evaluator).AddNew(x, y) }
			} else {
				a.run = func(ev interface{}) *mkckks.Ciphertext { return ev.(*mkckks.Evaluator).SubNew(x, y) }
			}
		case "mul", "square":
			if kind == "square" {
				y = x
			}
			a.ins = append(a.ins, y.Ciphertext)
			a.run = func(ev interface{}) *mkckks.Ciphertext { return ev.(*mkckks.Evaluator).MulRelinNew(x, y, k.RlkSet) }
		case "mulh":
			a.ins = append(a.ins, y.Ciphertext)
			hx, hy := ev.(*mkckks.Evaluator).HoistedForm(x), ev.(*mkckks.Evaluator).HoistedForm(y)
			a.hoist, a.hoistOf = []*mkrlwe.HoistedCiphertext{hx, hy}, x
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				return ev.(*mkckks.Evaluator).MulRelinHoistedNew(x, y, hx, hy, k.RlkSet)
			}
		case "const":
			val, _, _, _ := randConst(c)
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				o := mkckks.NewCiphertext(k.P, x.IDSet(), x.Level(), 0)
				ev.(*mkckks.Evaluator).MultByConst(x, val, o)
				return o
			}
		case "ptxt":
			m := k.RandMsg(1)
			pt := ckks.NewPlaintext(k.CP, k.P.MaxLevel(), k.P.Scale())
			encoder.Encode(pt, m.Value, k.P.LogSlots())
			before := copyLimbs(pt.Value.Coeffs)
			if pt.Value.IsNTT {
				k.R.InvNTT(pt.Value, pt.Value)
				pt.Value.IsNTT = false
				before = copyLimbs(pt.Value.Coeffs)
			}
			a.refill = func() func() {
				was := before
				randomise(c, k.R.Modulus, pt.Value.Coeffs)
				before = copyLimbs(pt.Value.Coeffs)
				return func() {
					for i := range was {
						copy(pt.Value.Coeffs[i], was[i])
					}
					before = was
				}
			}
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				o := ev.(*mkckks.Evaluator).MulPtxtNew(x, pt)
				if d := diffLimbs(before, pt.Value.Coeffs); d != "" {
					c.Fatal("input-changed", "MulPtxtNew changed its plaintext: %s", d)
				}
				return o
			}
		case "rescale":
			if x.Level() == 0 {
				continue
			}
			ms := c.LogUniform(1, math.Max(2, x.Scale))
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				o, err := ev.(*mkckks.Evaluator).RescaleNew(x, ms)
				if err != nil {
					c.Fatal("result", "RescaleNew: %v", err)
				}
				return o
			}
		case "rescale-into":
			if x.Level() == 0 {
				continue
			}
			ms := c.LogUniform(1, math.Max(2, x.Scale))
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				o := mkckks.NewCiphertext(k.P, x.IDSet(), x.Level(), 1)
				for _, p := range o.Value {
					for i := range p.Coeffs {
						for j := range p.Coeffs[i] {
							p.Coeffs[i][j] = uint64(i + j)
						}
					}
				}
				if err := ev.(*mkckks.Evaluator).Rescale(x, ms, o); err != nil {
					c.Fatal("result", "Rescale: %v", err)
				}
				return o
			}
		case "drop":
			n := c.Range(0, x.Level())
			a.run = func(ev interface{}) *mkckks.Ciphertext { return ev.(*mkckks.Evaluator).DropLevelNew(x, n) }
		case "rot":
			idx := Pick(c.Rng, rots...)
			a.run = func(ev interface{}) *mkckks.Ciphertext { return ev.(*mkckks.Evaluator).RotateNew(x, idx, k.RtkSet) }
		case "roth":
			if x.Ciphertext.Value["0"].IsNTT {
				continue
			}
			hx := ev.(*mkckks.Evaluator).HoistedForm(x)
			a.hoist, a.hoistOf = []*mkrlwe.HoistedCiphertext{hx}, x
			idx := custom - c.Range(0, 1)*h
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				return ev.(*mkckks.Evaluator).RotateHoistedNew(x, idx, hx, k.RtkSet)
			}
		case "conj":
			a.run = func(ev interface{}) *mkckks.Ciphertext { return ev.(*mkckks.Evaluator).ConjugateNew(x, k.CjkSet) }
		case "again":
			// an earlier operation once more, with whatever happened since
			if len(done) == 0 {
				continue
			}
			b := done[c.Intn(len(done))]
			o := b.run(ev)
			if d := sameSnap(b.first, outSnap(k.R, o)); d != "" {
				c.Fatal("history", "%s repeated after %d other operations gives another result: %s", b.name, len(done), d)
			}
			c.Eval("ckks/%s/again-%s", spec.Shape(), b.name)
			if k.N <= 64 && c.Coin(1, 12) {
				// the same operation very often
				m := int(c.LogUniform(40, 1400))
				for j := 0; j < m; j++ {
					o = b.run(ev)
				}
				if d := sameSnap(b.first, outSnap(k.R, o)); d != "" {
					c.Fatal("history", "%s repeated %d times gives another result: %s", b.name, m, d)
				}
				c.Eval("ckks/%s/often-%s", spec.Shape(), b.name)
			}
			continue
		case "encrypt":
			encryptPure(c, k)
			continue
		case "refused":
			// operations the library refuses leave the evaluator as usable as before
			refuseCKKS(c, k, ev.(*mkckks.Evaluator), x, y)
			c.Eval("ckks/%s/refused", spec.Shape())
			continue
		}
		a.name = kind
		c.Logf("%s level %d scale 2^%.1f parties %v ntt %v", kind, x.Level(), math.Log2(x.Scale), IDsOf(x.Ciphertext), x.Value["0"].IsNTT)
		var hh []map[string]uint64
		for _, v := range a.hoist {
			hh = append(hh, hoistHash(v))
		}
		judge(c, k.R, a, fresh, ev)
		for i, v := range a.hoist {
			for id, x := range hoistHash(v) {
				if hh[i][id] != x {
					c.Fatal("input-changed", "%s changed hoisted form %d (component %q)", kind, i, id)
				}
			}
		}
		if c.Coin(1, 3) {
			reuse(c, k.R, a, fresh, ev, func() func() { return swapKeysCKKS(c, k) })
		}
		done = append(done, a)
		if c.Coin(1, 2) {
			pool = append(pool, a.out)
		} else {
			add()
		}
		c.Eval("ckks/%s/%s", spec.Shape(), kind)
	}
	// every earlier result is still what it was, unless it is shared storage
	for i, a := range done {
		if d := sameSnap(a.first, outSnap(k.R, a.out)); d != "" {
			c.Fatal("alias", "the result of operation %d (%s) was changed by a later operation: %s", i, a.name, d)
		}
		for j := range done[:i] {
			if done[j].out == a.out {
				continue
			}
			if d := shares(done[j].out.Ciphertext, a.out.Ciphertext); d != "" {
				c.Fatal("alias", "results %d (%s) and %d (%s): %s", j, done[j].name, i, a.name, d)
			}
		}
	}
	keys1 := []uint64{hashRot(k.RtkSet, k.CjkSet, k.IDs), rlkHash(), hashCRS(k.P.Parameters)}
	for i, what := range []string{"rotation and conjugation keys", "relinearization keys", "common reference string"} {
		if keys0[i] != keys1[i] {
			c.Fatal("input-changed", "the operations changed the %s", what)
		}
	}
}

func refuseCKKS(c *Case, k *CKKS, ev *mkckks.Evaluator, x, y *mkckks.Ciphertext) {
	before, before2 := snapCT(x), snapCT(y)
	empty := mkrlwe.NewRotationKeySet()
	switch c.Intn(4) {
	case 0:
		did, _ := Panics(func() { ev.RotateNew(x, 1, empty) })
		if !did && len(IDsOf(x.Ciphertext)) > 0 {
			c.Fatal("missing-key", "a rotation without its key gave a result")
		}
	case 1:
		did, _ := Panics(func() { ev.ConjugateNew(x, mkrlwe.NewConjugationKeySet()) })
		if !did && len(IDsOf(x.Ciphertext)) > 0 {
			c.Fatal("missing-key", "a conjugation without its key gave a result")
		}
	case 2:
		did, _ := Panics(func() { ev.MulRelinNew(x, y, mkrlwe.NewRelinearizationKeyKeySet(k.P.Parameters)) })
		if !did && len(IDsOf(x.Ciphertext))+len(IDsOf(y.Ciphertext)) > 0 {
			c.Fatal("missing-key", "a product without its keys gave a result")
		}
	case 3:
		// the key of one party only is missing
		set := mkrlwe.NewConjugationKeySet()
		ids := keys(IDsOf(x.Ciphertext))
		for _, id := range ids[:len(ids)-1] {
			set.AddConjugationKey(k.CjkSet.GetConjugationKey(id))
		}
		did, _ := Panics(func() { ev.ConjugateNew(x, set) })
		if !did {
			c.Fatal("missing-key", "a conjugation without the key of %q gave a result", ids[len(ids)-1])
		}
	}
	if d := before.diff(x); d != "" {
		c.Fatal("input-changed", "a refused operation changed its operand: %s", d)
	}
	if d := before2.diff(y); d != "" {
		c.Fatal("input-changed", "a refused operation changed its operand: %s", d)
	}
}

func purityBFV(c *Case) {
	spec := bspecFor(c, c.Index == 2, BFVOpt{MinBits: 40, Big: true})
	np := Parties(c.Rng, spec, 1, 4)
	if c.Index == 2 {
		np = 2
	}
	k := NewBFV(c, spec, np)
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	rots := []int{c.Range(-h, h), c.Range(1, h-1)}
	for _, x := range rots {
		k.NeedRot(x)
	}
	evs := []interface{}{mkbfv.NewEvaluator(k.P), mkbfv.NewEvaluator(k.P)}
	fresh := func() interface{} { return mkbfv.NewEvaluator(k.P) }
	rlkHash := func() (x uint64) {
		for _, id := range k.IDs {
			for _, v := range k.RlkSet.Value[id].Value {
				for _, s := range v.Value {
					hashSwk(&x, s)
				}
			}
		}
		return
	}
	keys0 := []uint64{hashRot(k.RtkSet, k.CjkSet, k.IDs), rlkHash(), hashCRS(k.P.Parameters)}
	var pool []*mkbfv.Ciphertext
	add := func() { pool = append(pool, makeBInput(c, k, Subset(c.Rng, k.IDs)).ct) }
	for i := 0; i < 3; i++ {
		add()
	}
	wrap := func(o *mkbfv.Ciphertext) *mkckks.Ciphertext { return &mkckks.Ciphertext{Ciphertext: o.Ciphertext} }
	var done []*action
	rounds := c.Range(5, 10)
	if k.N > 4096 {
		rounds = 4
	} else if k.N <= 64 && c.Coin(1, 12) {
		rounds = c.Range(40, 80)
	}
	for i := 0; i < rounds; i++ {
		x, y := Pick(c.Rng, pool...), Pick(c.Rng, pool...)
		a := &action{ins: []*mkrlwe.Ciphertext{x.Ciphertext}}
		kind := Pick(c.Rng, "add", "sub", "mul", "mul", "square", "rot", "rot", "conj", "again", "decrypt", "encrypt")
		ev := evs[c.Intn(2)]
		switch kind {
		case "add":
			a.ins = append(a.ins, y.Ciphertext)
			a.run = func(ev interface{}) *mkckks.Ciphertext { return wrap(ev.(*mkbfv.Evaluator).AddNew(x, y)) }
		case "sub":
			a.ins = append(a.ins, y.Ciphertext)
			a.run = func(ev interface{}) *mkckks.Ciphertext { return wrap(ev.(*mkbfv.Evaluator).SubNew(x, y)) }
		case "mul", "square":
			if kind == "square" {
				y = x
			}
			a.ins = append(a.ins, y.Ciphertext)
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				return wrap(ev.(*mkbfv.Evaluator).MulRelinNew(x, y, k.RlkSet))
			}
		case "rot":
			idx := Pick(c.Rng, rots...)
			a.run = func(ev interface{}) *mkckks.Ciphertext {
				return wrap(ev.(*mkbfv.Evaluator).RotateNew(x, idx, k.RtkSet))
			}
		case "conj":
			a.run = func(ev interface{}) *mkckks.Ciphertext { return wrap(ev.(*mkbfv.Evaluator).ConjugateNew(x, k.CjkSet)) }
		case "again":
			if len(done) == 0 {
				continue
			}
			b := done[c.Intn(len(done))]
			o := b.run(ev)
			if d := sameSnap(b.first, outSnap(k.R, o)); d != "" {
				c.Fatal("history", "%s repeated after %d other operations gives another result: %s", b.name, len(done), d)
			}
			c.Eval("bfv/%s/again-%s", spec.Shape(), b.name)
			if k.N <= 64 && c.Coin(1, 12) {
				// the same operation very often
				m := int(c.LogUniform(40, 1400))
				for j := 0; j < m; j++ {
					o = b.run(ev)
				}
				if d := sameSnap(b.first, outSnap(k.R, o)); d != "" {
					c.Fatal("history", "%s repeated %d times gives another result: %s", b.name, m, d)
				}
				c.Eval("bfv/%s/often-%s", spec.Shape(), b.name)
			}
			continue
		case "encrypt":
			encryptPureBFV(c, k)
			continue
		case "decrypt":
			before := snapRLWE(x.Ciphertext)
			m1 := k.Dec.Decrypt(x, k.SKSet)
			m2 := mkbfv.NewDecryptor(k.P).Decrypt(x, k.SKSet)
			for j := range m1.Value {
				if m1.Value[j] != m2.Value[j] {
					c.Fatal("history", "a decryptor used before and a new one differ at slot %d", j)
				}
			}
			if d := before.diffRLWE(x.Ciphertext); d != "" {
				c.Fatal("input-changed", "decryption changed its operand: %s", d)
			}
			c.Eval("bfv/%s/decrypt", spec.Shape())
			continue
		}
		a.name = kind
		c.Logf("%s of %v and %v", kind, IDsOf(x.Ciphertext), IDsOf(y.Ciphertext))
		judge(c, k.R, a, fresh, ev)
		if c.Coin(1, 3) {
			reuse(c, k.R, a, fresh, ev, func() func() { return swapKeysBFV(c, k) })
		}
		done = append(done, a)
		if c.Coin(1, 2) {
			pool = append(pool, &mkbfv.Ciphertext{Ciphertext: a.out.Ciphertext})
		} else {
			add()
		}
		c.Eval("bfv/%s/%s", spec.Shape(), kind)
	}
	for i, a := range done {
		if d := sameSnap(a.first, outSnap(k.R, a.out)); d != "" {
			c.Fatal("alias", "the result of operation %d (%s) was changed by a later operation: %s", i, a.name, d)
		}
		for j := range done[:i] {
			if d := shares(done[j].out.Ciphertext, a.out.Ciphertext); d != "" {
				c.Fatal("alias", "results %d (%s) and %d (%s): %s", j, done[j].name, i, a.name, d)
			}
		}
	}
	keys1 := []uint64{hashRot(k.RtkSet, k.CjkSet, k.IDs), rlkHash(), hashCRS(k.P.Parameters)}
	for i, what := range []string{"rotation and conjugation keys", "relinearization keys", "common reference string"} {
		if keys0[i] != keys1[i] {
			c.Fatal("input-changed", "the operations changed the %s", what)
		}
	}
}

func init() {
	Register(&Prop{ID: "C16", Quick: 450, Thorough: 9000, MinEvals: 700, Run: runC16,
		Rule:        "one evaluation = one operation executed by an evaluator with a history and by a new one: same bits, operands, keys and CRS unchanged, no shared storage, or an earlier operation repeated; distinct = (scheme, parameter shape, operation)",
		Assumptions: []string{"results are compared modulo the primes", "operations run one after another (C17 covers concurrency)"}})
}
