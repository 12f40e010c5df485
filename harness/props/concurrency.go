package props

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sync"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C17

// tracelog is what one party saw: a fingerprint per operation.
type tracelog struct {
	names []string
	sums  []uint64
	panic string
}

func (t *tracelog) add(name string, h uint64) {
	t.names = append(t.names, name)
	t.sums = append(t.sums, h)
}

func hashCT(r *ring.Ring, ct *mkrlwe.Ciphertext, scale float64) (h uint64) {
	ids := keys(IDsOf(ct))
	hashU64(&h, []uint64{math.Float64bits(scale)})
	for _, id := range append([]string{"0"}, ids...) {
		for _, b := range []byte(id) {
			hashU64(&h, []uint64{uint64(b)})
		}
		for i, l := range ct.Value[id].Coeffs {
			v := make([]uint64, len(l))
			for j := range l {
				v[j] = l[j] % r.Modulus[i]
			}
			hashU64(&h, v)
		}
	}
	return
}

func hashComplex(v []complex128) (h uint64) {
	for _, x := range v {
		hashU64(&h, []uint64{math.Float64bits(real(x)), math.Float64bits(imag(x))})
	}
	return
}

// worker is the program of one party; it must only use its own rng and objects, and the shared read-only ones.
type worker func(g int, rng *Rng, log *tracelog)

// interleave runs n copies of the program at the same time, then one after another, and compares.
func interleave(c *Case, n int, tag string, prog worker) {
	run := func(par bool) []*tracelog {
		logs := make([]*tracelog, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			logs[g] = &tracelog{}
			body := func(g int) {
				defer func() {
					if r := recover(); r != nil {
						logs[g].panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
					}
				}()
				WithStream(func() {
					prog(g, NewRng("C17/", c.Seed, "/", c.Index, "/", tag, "/", g), logs[g])
				}, c.Seed, "/", c.Index, "/", tag, "/", g)
			}
			if !par {
				body(g)
				continue
			}
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				body(g)
			}(g)
		}
		if par {
			close(start)
			wg.Wait()
		}
		return logs
	}
	// the concurrent run comes first: anything initialised lazily is initialised under contention
	a := run(true)
	b := run(false)
	for g := range a {
		if b[g].panic != "" {
			c.Fatal("panic", "party %d alone: %s", g, b[g].panic)
		}
		if a[g].panic != "" {
			c.Fatal("concurrency", "party %d, running with %d others, panicked: %s", g, n-1, a[g].panic)
		}
		if len(a[g].sums) != len(b[g].sums) {
			c.Fatal("concurrency", "party %d: %d results with the others, %d alone", g, len(a[g].sums), len(b[g].sums))
		}
		for i := range a[g].sums {
			if a[g].names[i] != b[g].names[i] || a[g].sums[i] != b[g].sums[i] {
				c.Fatal("concurrency", "party %d, operation %d (%s): the result obtained while %d other parties run differs from the one obtained alone", g, i, a[g].names[i], n-1)
			}
		}
		for i, s := range a[g].names {
			next := ""
			if i+1 < len(a[g].names) {
				next = a[g].names[i+1]
			}
			c.Eval("%s/%s>%s", tag, s, next)
		}
	}
}

func runC17(c *Case) {
	switch c.Index % 4 {
	case 0, 1:
		concCKKS(c)
	case 2:
		concBFV(c)
	default:
		concBasis(c)
	}
}

func concCKKS(c *Case) {
	spec := RandCKKSSpec(c.Rng, CKKSOpt{MaxLogN: 7, MaxQ: 5})
	big := c.Index == 4
	np := c.Range(2, 4)
	if big {
		// once at the size of real parameters
		spec = bigSpec(c, 3)
		spec.LogN, spec.LogSlots = 13, 12
		np = 2
	} else if c.Coin(1, 3) {
		// many owners: an operation may share its work out among goroutines of its own
		spec.LogN = mini(spec.LogN, 5)
		spec.LogSlots = mini(spec.LogSlots, spec.LogN-1)
		np = c.Range(5, 12)
	}
	k := NewCKKS(c, spec, np)
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	custom := c.Range(1, h-1)
	if _, in := k.P.CRS[custom]; !in {
		k.P.AddCRS(custom)
	}
	rots := []int{custom, c.Range(-h, h), 1}
	for _, x := range rots {
		k.NeedRot(x)
	}
	var shared []*mkckks.Ciphertext
	for i := 0; i < 4; i++ {
		ct := oneInput(c, k).ct
		if i > 1 && ct.Level() < k.P.MaxLevel() {
			ct = oneInput(c, k).ct
		}
		shared = append(shared, ct)
	}
	owners := k.Subset()
	if np > 4 {
		owners = k.IDs
		shared[0] = makeInput(c, k, owners, c.Range(mini(1, k.P.MaxLevel()), k.P.MaxLevel()), k.P.Scale(), 1).ct
	}
	full := makeInput(c, k, owners, k.P.MaxLevel(), k.P.Scale(), 1).ct
	fullH := k.Eval.HoistedForm(full)
	msg := k.RandMsg(1)
	pt := k.Enc.EncodeMsgNew(msg)
	if pt.Value.IsNTT {
		k.R.InvNTT(pt.Value, pt.Value)
		pt.Value.IsNTT = false
	}
	const1 := []interface{}{3, -2.5, complex(0.5, -1.25), uint64(7)}
	n := c.Range(2, 8)
	steps := c.Range(5, 9)
	if big {
		n, steps = 2, 4
	}
	prog := func(g int, r *Rng, log *tracelog) {
		// every object is made here, concurrently with the others, from the shared parameters
		kg := mkrlwe.NewKeyGenerator(k.P.Parameters)
		enc := mkckks.NewEncryptor(k.P)
		dec := mkckks.NewDecryptor(k.P)
		ev := mkckks.NewEvaluator(k.P)
		ks := mkrlwe.NewKeySwitcher(k.P.Parameters)
		rlk := mkrlwe.NewRelinearizationKeyKeySet(k.P.Parameters)
		for _, id := range k.IDs {
			rlk.AddRelinearizationKey(k.RlkSet.Value[id])
		}
		pool := append([]*mkckks.Ciphertext{full}, shared...)
		for s := 0; s < steps; s++ {
			x, y := Pick(r, pool...), Pick(r, pool...)
			op := Pick(r, "enc", "encptxt", "dec", "share", "add", "sub", "scaled", "mul", "mulh", "mulh", "rot", "roth", "roth2", "conj", "const", "ptxt", "rescale", "drop", "keys", "copy",
				"ks-mul", "ks-rot", "ks-conj", "new")
			var out *mkckks.Ciphertext
			switch op {
			case "enc":
				out = enc.EncryptMsgNew(msg, k.PK[Pick(r, k.IDs...)])
			case "encptxt":
				lv := r.Range(0, k.P.MaxLevel())
				id := Pick(r, k.IDs...)
				out = mkckks.NewCiphertext(k.P, NewIDs(id), lv, 1)
				enc.EncryptPtxt(pt, k.PK[id], out)
			case "dec":
				log.add(op, hashComplex(dec.Decrypt(x, k.SKSet).Value))
				continue
			case "share":
				// one party's partial decryption, on a copy
				out = x.CopyNew()
				ids := keys(IDsOf(out.Ciphertext))
				dec.PartialDecrypt(out, k.SK[Pick(r, ids...)])
				log.add(op, hashCT(k.R, out.Ciphertext, out.Scale))
				continue
			case "add":
				out = ev.AddNew(x, y)
			case "sub":
				out = ev.SubNew(x, y)
			case "scaled":
				out = ev.AddNew(x, &mkckks.Ciphertext{Ciphertext: y.Ciphertext, Scale: x.Scale * float64(r.Range(2, 9))})
			case "mul":
				out = ev.MulRelinNew(x, y, rlk)
			case "mulh":
				var hx, hy *mkrlwe.HoistedCiphertext
				x = full
				if r.Coin(2, 3) {
					hx = fullH
				}
				if r.Coin(1, 2) {
					hy = ev.HoistedForm(y)
				}
				out = ev.MulRelinHoistedNew(x, y, hx, hy, rlk)
			case "roth2":
				out = ev.RotateHoistedNew(x, custom, ev.HoistedForm(x), k.RtkSet)
			case "ks-mul", "ks-rot", "ks-conj":
				ids := x.IDSet()
				if op == "ks-mul" {
					ids = ids.Union(y.IDSet())
				}
				out = mkckks.NewCiphertext(k.P, ids, r.Range(0, mini(x.Level(), y.Level())), 1)
				switch op {
				case "ks-mul":
					ks.MulAndRelin(x.Ciphertext, y.Ciphertext, rlk, out.Ciphertext)
				case "ks-rot":
					ks.Rotate(x.Ciphertext, custom, k.RtkSet, out.Ciphertext)
				case "ks-conj":
					ks.Conjugate(x.Ciphertext, k.CjkSet, out.Ciphertext)
				}
			case "new":
				// another set of objects, while the others work
				out = mkckks.NewEvaluator(k.P).RotateNew(x, custom, k.RtkSet)
				enc = mkckks.NewEncryptor(k.P)
				dec = mkckks.NewDecryptor(k.P)
				ks = mkrlwe.NewKeySwitcher(k.P.Parameters)
			case "rot":
				out = ev.RotateNew(x, Pick(r, rots...), k.RtkSet)
			case "roth":
				out = ev.RotateHoistedNew(full, custom, fullH, k.RtkSet)
			case "conj":
				out = ev.ConjugateNew(x, k.CjkSet)
			case "const":
				out = mkckks.NewCiphertext(k.P, x.IDSet(), x.Level(), 0)
				ev.MultByConst(x, Pick(r, const1...), out)
			case "ptxt":
				out = ev.MulPtxtNew(x, pt)
			case "rescale":
				if x.Level() == 0 {
					continue
				}
				out, _ = ev.RescaleNew(x, math.Max(2, x.Scale/2))
			case "drop":
				out = ev.DropLevelNew(x, r.Range(0, x.Level()))
			case "copy":
				out = x.CopyNew()
			case "keys":
				id := fmt.Sprintf("own%d", g)
				sk, pk := kg.GenKeyPair(id)
				var hh uint64
				hashU64(&hh, pk.Value[0].Q.Coeffs[0])
				hashSwk(&hh, kg.GenRotationKey(1, sk).Value)
				hashSwk(&hh, kg.GenConjugationKey(sk).Value)
				rk := kg.GenRelinearizationKey(sk, kg.GenSecretKey(id))
				for _, v := range rk.Value {
					hashSwk(&hh, v)
				}
				hw := r.Range(1, k.N)
				for _, s := range []*mkrlwe.SecretKey{kg.GenSecretKeyGaussian(id), kg.GenSecretKeySparse(hw, id), kg.GenSecretKeyWithDistrib(0.3, id)} {
					hashU64(&hh, s.Value.Q.Coeffs[0])
				}
				hashU64(&hh, kg.GenPublicKey(Pick(r, sk, k.SK[Pick(r, k.IDs...)])).Value[0].Q.Coeffs[0])
				swk := mkrlwe.NewSwitchingKey(k.P.Parameters)
				kg.GenSwitchingKey(sk, swk)
				hashSwk(&hh, swk)
				if !big && r.Coin(1, 3) {
					set := mkrlwe.NewRotationKeySet()
					kg.GenDefaultRotationKeys(sk, set)
					hashSwk(&hh, set.GetRotationKey(id, 1).Value)
				}
				log.add(op, hh)
				continue
			}
			log.add(op, hashCT(k.R, out.Ciphertext, out.Scale))
			if r.Coin(1, 2) {
				pool = append(pool, out)
			}
			if r.Coin(1, 3) {
				runtime.Gosched()
			}
		}
	}
	c.Logf("%d parties, %d operations each", n, steps)
	interleave(c, n, "ckks", prog)
}

func concBFV(c *Case) {
	spec := RandBFVSpec(c.Rng, BFVOpt{MinBits: 40, MaxLogN: 7, MaxQ: 4})
	big := c.Index == 2
	np := c.Range(2, 3)
	if big {
		spec = bigBFVSpec(c, 2)
		spec.LogN = 13
		np = 2
	} else if c.Coin(1, 3) && spec.LogN <= 6 {
		np = c.Range(5, 12)
	}
	k := NewBFV(c, spec, np)
	k.NeedRlk()
	k.NeedConj()
	h := k.N / 2
	rots := []int{c.Range(-h, h), 1}
	for _, x := range rots {
		k.NeedRot(x)
	}
	var shared []*mkbfv.Ciphertext
	for i := 0; i < 4; i++ {
		ids := Subset(c.Rng, k.IDs)
		if i == 0 && np > 4 {
			ids = k.IDs
		}
		shared = append(shared, makeBInput(c, k, ids).ct)
	}
	msg := k.RandMsg()
	n := c.Range(2, 8)
	steps := c.Range(4, 8)
	bcp, _ := bfv.NewParameters(k.P.Parameters.Parameters, k.P.T())
	pt := bfv.NewPlaintext(bcp)
	bfv.NewEncoder(bcp).EncodeInt(msg.Value, pt)
	if big {
		n, steps = 2, 4
	}
	prog := func(g int, r *Rng, log *tracelog) {
		kg := mkbfv.NewKeyGenerator(k.P)
		enc := mkbfv.NewEncryptor(k.P)
		dec := mkbfv.NewDecryptor(k.P)
		ev := mkbfv.NewEvaluator(k.P)
		rlk := mkbfv.NewRelinearizationKeyKeySet(k.P)
		for _, id := range k.IDs {
			rlk.AddRelinearizationKey(k.RlkSet.Value[id])
		}
		pool := append([]*mkbfv.Ciphertext{}, shared...)
		for s := 0; s < steps; s++ {
			x, y := Pick(r, pool...), Pick(r, pool...)
			op := Pick(r, "enc", "encptxt", "dec", "share", "add", "sub", "mul", "mul", "square", "ks-mul", "rot", "conj", "keys", "copy", "new")
			var out *mkbfv.Ciphertext
			switch op {
			case "enc":
				out = enc.EncryptMsgNew(msg, k.PK[Pick(r, k.IDs...)])
			case "encptxt":
				id := Pick(r, k.IDs...)
				out = mkbfv.NewCiphertext(k.P, NewIDs(id))
				enc.EncryptPtxt(pt, k.PK[id], out)
			case "share":
				out = x.CopyNew()
				dec.PartialDecrypt(out, k.SK[Pick(r, keys(IDsOf(out.Ciphertext))...)])
				log.add(op, hashCT(k.R, out.Ciphertext, 0))
				continue
			case "copy":
				out = x.CopyNew()
			case "square":
				out = ev.MulRelinNew(x, x, rlk)
			case "ks-mul":
				out = mkbfv.NewCiphertext(k.P, x.IDSet().Union(y.IDSet()))
				conv := mkbfv.NewFastBasisExtender(k.P.RingP(), k.P.RingQ(), k.P.RingQMul(), k.P.RingR())
				mkbfv.NewKeySwitcher(k.P).MulAndRelinBFV(lift(k, x, conv.ModUpQtoR), lift(k, y, conv.Rescale), rlk, out.Ciphertext)
			case "new":
				out = mkbfv.NewEvaluator(k.P).RotateNew(x, Pick(r, rots...), k.RtkSet)
				enc = mkbfv.NewEncryptor(k.P)
				dec = mkbfv.NewDecryptor(k.P)
			case "dec":
				var hh uint64
				for _, v := range dec.Decrypt(x, k.SKSet).Value {
					hashU64(&hh, []uint64{uint64(v)})
				}
				log.add(op, hh)
				continue
			case "add":
				out = ev.AddNew(x, y)
			case "sub":
				out = ev.SubNew(x, y)
			case "mul":
				out = ev.MulRelinNew(x, y, rlk)
			case "rot":
				out = ev.RotateNew(x, Pick(r, rots...), k.RtkSet)
			case "conj":
				out = ev.ConjugateNew(x, k.CjkSet)
			case "keys":
				id := fmt.Sprintf("own%d", g)
				sk, pk := kg.GenKeyPair(id)
				var hh uint64
				hashU64(&hh, pk.Value[0].Q.Coeffs[0])
				hashSwk(&hh, kg.GenRotationKey(1, sk).Value)
				rk := kg.GenRelinearizationKey(sk, kg.GenSecretKey(id))
				for _, w := range rk.Value {
					for _, v := range w.Value {
						hashSwk(&hh, v)
					}
				}
				hashU64(&hh, kg.GenSecretKeyGaussian(id).Value.Q.Coeffs[0])
				hashU64(&hh, kg.GenSecretKeySparse(r.Range(1, k.N), id).Value.Q.Coeffs[0])
				hashSwk(&hh, kg.GenConjugationKey(sk).Value)
				log.add(op, hh)
				continue
			}
			log.add(op, hashCT(k.R, out.Ciphertext, 0))
			if r.Coin(1, 2) {
				pool = append(pool, out)
			}
			if r.Coin(1, 3) {
				runtime.Gosched()
			}
		}
	}
	c.Logf("%d parties, %d operations each", n, steps)
	interleave(c, n, "bfv", prog)
}

// concBasis: copies of one basis extender (sharing its read-only tables), one
// decomposer, and generic encryptors and decryptors.
func concBasis(c *Case) {
	spec := RandRLWESpec(c.Rng, 7, 6)
	p := NewRLWEParams(spec)
	c.Logf("generic %v", spec)
	rq, rp := p.RingQ(), p.RingP()
	base := mkrlwe.NewFastBasisExtender(rq, rp)
	dcmp := mkrlwe.NewDecomposer(rq, rp, p.Gamma())
	kg := mkrlwe.NewKeyGenerator(p)
	id := RandIDs(c.Rng, 1)[0]
	sk, pk := kg.GenKeyPair(id)
	set := skSet(sk)
	inQ, inP := randPoly(c.Rng, rq, len(rq.Modulus)-1), randPoly(c.Rng, rp, len(rp.Modulus)-1)
	n := c.Range(2, 8)
	cp, _ := ckks.NewParameters(p.Parameters, spec.LogSlots, math.Max(spec.Scale, 2))
	prog := func(g int, r *Rng, log *tracelog) {
		ext := base.ShallowCopy()
		enc := mkrlwe.NewEncryptor(p)
		dec := mkrlwe.NewDecryptor(p)
		for s := 0; s < 6; s++ {
			lq, lp := r.Range(0, len(rq.Modulus)-1), r.Range(0, len(rp.Modulus)-1)
			oq, op := rq.NewPoly(), rp.NewPoly()
			what := Pick(r, "modup", "modupP", "moddown", "moddownP", "moddownNTT", "decompose", "encrypt")
			switch what {
			case "modup":
				ext.ModUpQtoP(lq, lp, inQ, op)
			case "modupP":
				ext.ModUpPtoQ(lp, lq, inP, oq)
			case "moddown":
				ext.ModDownQPtoQ(lq, lp, inQ, inP, oq)
			case "moddownP":
				ext.ModDownQPtoP(lq, lp, inQ, inP, op)
			case "moddownNTT":
				ext.ModDownQPtoQNTT(lq, lp, inQ, inP.CopyNew(), oq)
			case "decompose":
				full := len(rp.Modulus) - 1
				dcmp.DecomposeAndSplit(lq, full, p.Alpha(), r.Range(0, p.Beta(lq)-1), p.Gamma(), inQ, oq, op)
			case "encrypt":
				pt := ckks.NewPlaintext(cp, lq, 1)
				pt.Value.IsNTT = r.Coin(1, 2)
				for i := 0; i <= lq; i++ {
					copy(pt.Value.Coeffs[i], inQ.Coeffs[i])
				}
				ct := mkrlwe.NewCiphertextNTT(p, NewIDs(id), lq)
				ct.Value["0"].IsNTT, ct.Value[id].IsNTT = pt.Value.IsNTT, pt.Value.IsNTT
				enc.Encrypt(pt.Plaintext, pk, ct)
				log.add("encrypt", hashCT(rq, ct, 0))
				out := ckks.NewPlaintext(cp, lq, 1)
				dec.Decrypt(ct, set, out.Plaintext)
				oq = out.Value
			}
			var hh uint64
			for i := range oq.Coeffs {
				hashU64(&hh, oq.Coeffs[i])
			}
			for i := range op.Coeffs {
				hashU64(&hh, op.Coeffs[i])
			}
			log.add(what, hh)
			if r.Coin(1, 3) {
				runtime.Gosched()
			}
		}
	}
	interleave(c, n, "generic", prog)
}

func randPoly(r *Rng, rg *ring.Ring, level int) *ring.Poly {
	p := rg.NewPoly()
	for i := 0; i <= level; i++ {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = r.Uint64() % rg.Modulus[i]
		}
	}
	return p
}

func init() {
	Register(&Prop{ID: "C17", Quick: 200, Thorough: 4000, MinEvals: 1000, Run: runC17, Workers: 4, Variants: []string{"race"},
		Rule:        "one evaluation = one operation of one of 2-8 concurrent parties under the race detector, its result compared with that of a serial run; distinct = (scheme, operation, next operation)",
		Assumptions: []string{"each party has its own encryptor, decryptor, key generator, evaluator and relinearization key set (these hold scratch space); parameters, single keys, other key sets and inputs are shared", "the race detector reports on the schedules that occurred"}})
}
