package props

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C21

func runC21(c *Case) {
	if c.Index%3 == 2 {
		circuitBFV(c)
	} else {
		circuitCKKS(c)
	}
}

// node is a ciphertext of a running computation with its plaintext model.
type node struct {
	*input
	depth int
	hoist *mkrlwe.HoistedCiphertext
	mut   int // times it was rescaled or dropped in place
}

// measureErr sets the coefficient error of a node from its own phase: what the
// computation did to the encoding of the model's value.
func measureErr(k *CKKS, enc ckks.Encoder, n *input) {
	pt := ckks.NewPlaintext(k.CP, n.ct.Level(), n.ct.Scale)
	enc.Encode(pt, n.msg, k.P.LogSlots())
	n.err = NormInf(k.R, n.ct.Level(), SubPoly(k.R, n.ct.Level(), n.phase, pt.Value)) + 1
}

func circuitCKKS(c *Case) {
	spec := RandCKKSSpec(c.Rng, CKKSOpt{MinQ: 3, MaxQ: 8})
	if c.Index == 1 {
		spec = bigSpec(c, 5)
	} else if c.Index%bigEvery == 2 {
		spec = bigSpec(c, 3)
	} else if logN := hugeN(c); logN != 0 {
		spec = bigSpecN(c, 3, logN)
	}
	np := Parties(c.Rng, spec, 1, 4)
	if spec.Family == "big" {
		np = 2
	}
	k := NewCKKS(c, spec, np)
	k.NeedRlk()
	enc := ckks.NewEncoder(k.CP)
	if c.Coin(1, 2) {
		if i := c.Range(1, k.N/2-1); k.P.CRS[i] == nil {
			k.P.AddCRS(i)
		}
	}
	s2 := 2 * float64(k.P.Slots())
	var st []*node
	put := func(n *node) {
		if len(st) < 6 {
			st = append(st, n)
			return
		}
		st[c.Intn(len(st))] = n
	}
	room := func(level int, scale, mag float64) bool { return scale*mag*16 < modulusOf(k, level) }
	// settle re-reads a result; hist is what was done
	settle := func(op string, n *node) bool {
		n.phase = k.Phase(n.ct)
		own := Owners(k.SK, n.ids)
		all := k.SKSet
		if c.Coin(1, 2) {
			k.SKSet = own
		}
		defer func() { k.SKSet = all }()
		measureErr(k, enc, n.input)
		// the error as the owners see it
		checkDecode(c, k, op, n.ct, n.msg, k.SlotTol(n.err, n.ct.Scale, MaxAbs(n.msg)))
		rel := n.err * s2 / n.ct.Scale
		return rel < 0.05*(1+MaxAbs(n.msg)) && MaxAbs(n.msg) < 1e9
	}
	encrypt := func() {
		id := k.IDs[c.Intn(len(k.IDs))]
		lim := Pick(c.Rng, 1, 1, 0.5, 8)
		lim = math.Min(lim, k.MaxSlot(k.P.MaxLevel(), k.P.Scale(), 16))
		m := k.RandMsg(lim)
		n := &node{input: &input{ct: k.Enc.EncryptMsgNew(m, k.PK[id]), msg: append([]complex128{}, m.Value...), ids: one(id)}}
		n.phase = k.Phase(n.ct)
		measureErr(k, enc, n.input)
		if lim := k.Noise.FreshMax() + 2 + MaxAbs(n.msg)*n.ct.Scale*1e-13*s2; n.err > lim {
			c.Fatal("noise", "a fresh encryption has error %g, bound %g", n.err, lim)
		}
		settle("encryption", n)
		put(n)
		c.Logf("  encrypt for %q", id)
	}
	encrypt()
	encrypt()
	steps := c.Range(10, 26)
	if k.N > 4096 {
		steps = 6
	}
	h := k.N / 2
	deepest := 0
	for i := 0; i < steps; i++ {
		a := st[c.Intn(len(st))]
		op := Pick(c.Rng, "enc", "join", "restart", "add", "add", "sub", "mul", "mul", "mul", "sq", "hmul", "hmul", "rot", "rot", "hrot", "conj", "const", "ptxt", "rescale", "drop")
		c.Logf("%d: %s of node level %d scale 2^%.2f owners %q err %.3g |m| %.3g", i, op, a.ct.Level(), math.Log2(a.ct.Scale), keys(a.ids), a.err, MaxAbs(a.msg))
		var out *node
		switch op {
		case "enc":
			encrypt()
			continue
		case "join":
			if len(k.IDs) < 6 && k.N <= 4096 {
				for {
					if id := RandIDs(c.Rng, 1)[0]; k.SK[id] == nil {
						k.Join(id)
						break
					}
				}
				k.NeedRlk()
				encrypt()
				c.Eval("join/%d", len(k.IDs))
			}
			continue
		case "restart":
			// a party starts over; what it shared before is worthless
			if k.N <= 1024 {
				id := k.IDs[c.Intn(len(k.IDs))]
				k.Renew(id)
				var left []*node
				for _, n := range st {
					if !n.ids[id] {
						left = append(left, n)
					}
				}
				st = left
				encrypt()
				encrypt()
				c.Eval("restart/%d", len(k.IDs))
			}
			continue
		case "add", "sub":
			b := st[c.Intn(len(st))]
			lv := mini(a.ct.Level(), b.ct.Level())
			sc := math.Max(a.ct.Scale, b.ct.Scale)
			f := math.Round(sc / math.Min(a.ct.Scale, b.ct.Scale))
			mis := math.Abs(f*math.Min(a.ct.Scale, b.ct.Scale)/sc - 1)
			if mis > 1e-2 || !room(lv, sc, MaxAbs(a.msg)+MaxAbs(b.msg)+1) || f > 1e12 {
				continue
			}
			var ct *mkckks.Ciphertext
			sg := complex(1, 0)
			if op == "add" {
				ct = k.Eval.AddNew(a.ct, b.ct)
			} else {
				ct = k.Eval.SubNew(a.ct, b.ct)
				sg = -1
			}
			ids := Union(a.ids, b.ids)
			CheckShape(c, op, ct.Ciphertext, ids, lv)
			if ct.Scale != sc {
				c.Fatal("scale", "%s: scale %g, expected %g", op, ct.Scale, sc)
			}
			out = &node{input: &input{ct: ct, ids: ids, msg: make([]complex128, len(a.msg))}, depth: maxi(a.depth, b.depth)}
			for j := range out.msg {
				out.msg[j] = a.msg[j] + sg*b.msg[j]
			}
			ka, kb := 1.0, 1.0
			wa, wb := 0.0, 0.0
			if f > 1 {
				if a.ct.Scale < b.ct.Scale {
					ka = f
				} else {
					kb = f
				}
			}
			// the part of the value that a scale mismatch costs, in coefficients
			if a.ct.Scale < b.ct.Scale {
				wa = mis * MaxAbs(a.msg) * sc
			} else {
				wb = mis * MaxAbs(b.msg) * sc
			}
			out.phase = k.Phase(ct)
			measureErr(k, enc, out.input)
			m := (MaxAbs(a.msg) + MaxAbs(b.msg)) * sc
			if lim := a.err*ka + b.err*kb + 2*(wa+wb) + 8 + m*1e-12*s2; out.err > lim {
				c.Fatal("noise", "%s of owners %q and %q, levels %d and %d, scales %g and %g: error %g, bound %g", op, keys(a.ids), keys(b.ids), a.ct.Level(), b.ct.Level(), a.ct.Scale, b.ct.Scale, out.err, lim)
			}
		case "mul", "sq", "hmul":
			b := st[c.Intn(len(st))]
			if op == "sq" {
				b = a
			}
			lv := mini(a.ct.Level(), b.ct.Level())
			m := (MaxAbs(a.msg) + 1) * (MaxAbs(b.msg) + 1)
			if !room(lv, a.ct.Scale*b.ct.Scale, m) {
				continue
			}
			var ct *mkckks.Ciphertext
			if op == "hmul" {
				for _, n := range []*node{a, b} {
					if n.hoist == nil {
						n.hoist = k.Eval.HoistedForm(n.ct)
					}
				}
				h0, h1 := a.hoist, b.hoist
				switch c.Intn(4) {
				case 0:
					h0 = nil
				case 1:
					h1 = nil
				}
				ct = k.Eval.MulRelinHoistedNew(a.ct, b.ct, h0, h1, k.RlkSet)
			} else {
				ct = k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet)
			}
			checkMul(c, k, op, a.input, b.input, ct)
			out = &node{input: &input{ct: ct, ids: Union(a.ids, b.ids), msg: make([]complex128, len(a.msg))}, depth: 1 + maxi(a.depth, b.depth)}
			for j := range out.msg {
				out.msg[j] = a.msg[j] * b.msg[j]
			}
			if !room(ct.Level(), ct.Scale, m) {
				continue
			}
		case "rot", "hrot":
			idx := randRot(c, k.N)
			hoisted := op == "hrot"
			if hoisted {
				n := ((idx % h) + h) % h
				if _, in := k.P.CRS[n]; !in && n != 0 {
					idx = 1 << uint(c.Intn(bitsLen(h)))
				}
			}
			k.NeedRot(idx)
			var ct *mkckks.Ciphertext
			if hoisted {
				if a.hoist == nil {
					a.hoist = k.Eval.HoistedForm(a.ct)
				}
				ct = k.Eval.RotateHoistedNew(a.ct, idx, a.hoist, k.RtkSet)
			} else {
				ct = k.Eval.RotateNew(a.ct, idx, k.RtkSet)
			}
			checkRot(c, k, op, a.input, idx, RotSteps(k.P.Parameters, idx), ct)
			out = &node{input: &input{ct: ct, ids: a.ids, msg: rotated(a.msg, idx)}, depth: a.depth}
		case "conj":
			k.NeedConj()
			ct := k.Eval.ConjugateNew(a.ct, k.CjkSet)
			CheckShape(c, op, ct.Ciphertext, a.ids, a.ct.Level())
			out = &node{input: &input{ct: ct, ids: a.ids, msg: make([]complex128, len(a.msg))}, depth: a.depth}
			for j := range out.msg {
				out.msg[j] = cmplx.Conj(a.msg[j])
			}
			out.phase = k.Phase(ct)
			measureErr(k, enc, out.input)
			if lim := a.err + k.Noise.Switch(ct.Level(), len(a.ids)) + 2 + MaxAbs(a.msg)*ct.Scale*1e-12*s2; ct.Scale != a.ct.Scale || out.err > lim {
				c.Fatal("noise", "conjugation: scale %g, error %g, bound %g", ct.Scale, out.err, lim)
			}
		case "const":
			var val interface{}
			var z complex128
			switch c.Intn(4) {
			case 0:
				v := c.Range(-9, 9)
				val, z = v, complex(float64(v), 0)
			case 1:
				v := c.Sym(2)
				val, z = v, complex(v, 0)
			case 2:
				z = complex(float64(c.Range(-3, 3)), float64(c.Range(-3, 3)))
				val = z
			default:
				z = complex(c.Sym(1), c.Sym(1))
				val = z
			}
			n := 1.0
			if !isInt(real(z)) || !isInt(imag(z)) {
				n = float64(k.R.Modulus[a.ct.Level()])
			}
			amp := math.Abs(real(z)) + math.Abs(imag(z))
			if !room(a.ct.Level(), a.ct.Scale*n, (MaxAbs(a.msg)+1)*(amp+1)) {
				continue
			}
			ct := a.ct.CopyNew()
			if c.Coin(1, 2) {
				k.Eval.MultByConst(ct, val, ct)
			} else {
				k.Eval.MultByConst(a.ct, val, ct)
			}
			CheckShape(c, op, ct.Ciphertext, a.ids, a.ct.Level())
			if !relClose(ct.Scale, a.ct.Scale*n, 1e-12) {
				c.Fatal("scale", "constant %v: scale %g, expected %g", val, ct.Scale, a.ct.Scale*n)
			}
			out = &node{input: &input{ct: ct, ids: a.ids, msg: make([]complex128, len(a.msg))}, depth: a.depth}
			for j := range out.msg {
				out.msg[j] = a.msg[j] * z
			}
			out.phase = k.Phase(ct)
			measureErr(k, enc, out.input)
			m := MaxAbs(a.msg) * a.ct.Scale
			if lim := (a.err*(amp+1)+2*m*s2/n*b2f(n > 1))*n*2 + 4 + m*(amp+1)*n*1e-12*s2; out.err > lim {
				c.Fatal("noise", "constant %v: error %g, bound %g", val, out.err, lim)
			}
		case "ptxt":
			msg := mkckks.NewMessage(k.P)
			FillSlots(c.Rng, msg.Value, 2)
			m := (MaxAbs(a.msg) + 1) * (MaxAbs(msg.Value) + 1)
			if !room(a.ct.Level(), a.ct.Scale*k.P.Scale(), m) {
				continue
			}
			ct := k.Eval.MulPtxtNew(a.ct, k.Enc.EncodeMsgNew(msg))
			CheckShape(c, op, ct.Ciphertext, a.ids, ct.Level())
			rescaleChecks(c, k, op, ct, a.ct.Level(), a.ct.Scale*k.P.Scale(), k.P.Scale())
			out = &node{input: &input{ct: ct, ids: a.ids, msg: make([]complex128, len(a.msg))}, depth: a.depth + 1}
			for j := range out.msg {
				out.msg[j] = a.msg[j] * msg.Value[j]
			}
			out.phase = k.Phase(ct)
			measureErr(k, enc, out.input)
			e1 := a.err * s2 / a.ct.Scale
			e2 := s2 / k.P.Scale()
			tol := 2 * (e1*(MaxAbs(msg.Value)+e2) + e2*MaxAbs(a.msg))
			if lim := (tol*ct.Scale+k.Noise.RoundMax(k.L1(ct))*2+4)*2 + m*ct.Scale*1e-12*s2; room(ct.Level(), ct.Scale, m) && out.err > lim {
				c.Fatal("noise", "plaintext product: error %g, bound %g", out.err, lim)
			}
			if !room(ct.Level(), ct.Scale, m) {
				continue
			}
		case "rescale":
			if a.ct.Level() == 0 {
				continue
			}
			thr := Pick(c.Rng, k.P.Scale(), k.P.Scale()/16, a.ct.Scale/1e4)
			if thr < 2*s2*(k.Noise.RoundMax(k.L1(a.ct))+2) {
				continue
			}
			from, scale, err := a.ct.Level(), a.ct.Scale, a.err
			n := &node{input: &input{ids: a.ids, msg: a.msg}, depth: a.depth}
			if c.Coin(1, 2) {
				n.ct = a.ct.CopyNew()
				if e := k.Eval.Rescale(n.ct, thr, n.ct); e != nil {
					c.Fatal("rescale", "Rescale refused level %d scale %g threshold %g: %v", from, scale, thr, e)
				}
			} else {
				var e error
				if n.ct, e = k.Eval.RescaleNew(a.ct, thr); e != nil {
					c.Fatal("rescale", "RescaleNew refused level %d scale %g threshold %g: %v", from, scale, thr, e)
				}
			}
			CheckShape(c, op, n.ct.Ciphertext, a.ids, n.ct.Level())
			rescaleChecks(c, k, op, n.ct, from, scale, thr)
			n.phase = k.Phase(n.ct)
			measureErr(k, enc, n.input)
			if lim := err*n.ct.Scale/scale + 2*k.Noise.RoundMax(k.L1(n.ct)) + 4 + MaxAbs(a.msg)*n.ct.Scale*1e-12*s2; n.err > lim {
				c.Fatal("noise", "rescaling from level %d to %d: error %g, bound %g", from, n.ct.Level(), n.err, lim)
			}
			out = n
		case "drop":
			d := c.Range(0, a.ct.Level())
			lv := a.ct.Level() - d
			if !room(lv, a.ct.Scale, MaxAbs(a.msg)+1) {
				continue
			}
			if c.Coin(1, 3) {
				// in place: hoisted forms made before stay usable
				k.Eval.DropLevel(a.ct, d)
				CheckShape(c, op, a.ct.Ciphertext, a.ids, lv)
				a.mut++
				if !settle(fmt.Sprintf("after step %d (%s in place)", i, op), a) {
					c.Fatal("noise", "dropping levels in place changed the value")
				}
				c.Eval("ckks/drop-in-place/%d", len(a.ids))
				continue
			}
			out = &node{input: &input{ct: k.Eval.DropLevelNew(a.ct, d), ids: a.ids, msg: a.msg}, depth: a.depth}
			CheckShape(c, op, out.ct.Ciphertext, a.ids, lv)
			out.phase = k.Phase(out.ct)
			measureErr(k, enc, out.input)
			if out.err > a.err+2 || out.ct.Scale != a.ct.Scale {
				c.Fatal("noise", "dropping %d levels: error %g instead of %g", d, out.err, a.err)
			}
		}
		if out == nil {
			continue
		}
		if !settle(fmt.Sprintf("after step %d (%s)", i, op), out) {
			continue // too noisy to be worth carrying on with; the step itself was judged
		}
		if out.depth > deepest {
			deepest = out.depth
		}
		c.Eval("ckks/%s/own%d/l%d/d%d", op, len(out.ids), out.ct.Level(), out.depth)
		put(out)
	}
	// everything still decrypts to its model, whatever was computed meanwhile
	for i, n := range st {
		was := n.err
		settle(fmt.Sprintf("end of the history, node %d", i), n)
		if n.err > was*(1+1e-9)+1e-9 {
			c.Fatal("drift", "node %d changed after it was computed: error %g, was %g", i, n.err, was)
		}
	}
	c.Stat("depth/ckks", float64(deepest))
	c.Stat("parties/ckks", float64(len(k.IDs)))
}

func circuitBFV(c *Case) {
	spec := bspecFor(c, c.Index == 2, BFVOpt{MinBits: 48, MinQ: 1, MaxQ: 8})
	np := Parties(c.Rng, spec, 1, 4)
	if c.Index == 2 {
		np = 2
	}
	k := NewBFV(c, spec, np)
	k.NeedRlk()
	if c.Coin(1, 2) {
		if i := c.Range(1, k.N/2-1); k.P.CRS[i] == nil {
			k.P.AddCRS(i)
		}
	}
	type bnode struct {
		*binput
		depth int
	}
	q, t := qf(k), float64(k.T)
	level := k.P.MaxLevel()
	var st []*bnode
	put := func(n *bnode) {
		if len(st) < 6 {
			st = append(st, n)
			return
		}
		st[c.Intn(len(st))] = n
	}
	encrypt := func() {
		id := k.IDs[c.Intn(len(k.IDs))]
		m := k.RandMsg()
		n := &bnode{binput: &binput{ct: k.Enc.EncryptMsgNew(m, k.PK[id]), msg: append([]int64{}, m.Value...), ids: one(id)}}
		n.rel = checkBFV(c, k, "encryption", n.ct, n.ids, n.msg, freshRel(k, 1))
		put(n)
		c.Logf("  encrypt for %q", id)
	}
	encrypt()
	encrypt()
	steps := c.Range(10, 24)
	if k.N > 4096 {
		steps = 6
	}
	all := k.SKSet
	deepest := 0
	for i := 0; i < steps; i++ {
		a, b := st[c.Intn(len(st))], st[c.Intn(len(st))]
		op := Pick(c.Rng, "enc", "join", "restart", "add", "sub", "mul", "mul", "mul", "sq", "rot", "rot", "conj", "conj")
		c.Logf("%d: %s of node owners %q noise 2^%.1f", i, op, keys(a.ids), math.Log2(a.rel))
		if op == "sq" {
			b = a
		}
		var ct *mkbfv.Ciphertext
		var want []int64
		ids, bound, d := a.ids, 0.0, a.depth
		switch op {
		case "enc":
			encrypt()
			continue
		case "join":
			if len(k.IDs) < 6 && k.N <= 4096 {
				for {
					if id := RandIDs(c.Rng, 1)[0]; k.SK[id] == nil {
						k.Join(id)
						break
					}
				}
				k.NeedRlk()
				encrypt()
				c.Eval("bfv/join/%d", len(k.IDs))
			}
			continue
		case "restart":
			// a party starts over; what it shared before is worthless
			if k.N <= 1024 {
				id := k.IDs[c.Intn(len(k.IDs))]
				k.Renew(id)
				var left []*bnode
				for _, n := range st {
					if !n.ids[id] {
						left = append(left, n)
					}
				}
				st = left
				encrypt()
				encrypt()
				c.Eval("bfv/restart/%d", len(k.IDs))
			}
			continue
		case "add", "sub":
			bound = (a.rel+b.rel)*(1+1e-9) + 4*t/q
			if bound > 0.4 {
				continue
			}
			sg := int64(1)
			if op == "add" {
				ct = k.Eval.AddNew(a.ct, b.ct)
			} else {
				ct = k.Eval.SubNew(a.ct, b.ct)
				sg = -1
			}
			want = make([]int64, len(a.msg))
			for j := range want {
				want[j] = CenterT(a.msg[j]+sg*b.msg[j], k.T)
			}
			ids = Union(a.ids, b.ids)
			d = maxi(a.depth, b.depth)
		case "mul", "sq":
			bound, _ = bfvMulBound(k, a.binput, b.binput)
			if bound > 0.2 {
				continue
			}
			ct = k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet)
			want = mulMsg(a.msg, b.msg, k.T)
			ids = Union(a.ids, b.ids)
			d = 1 + maxi(a.depth, b.depth)
		case "rot":
			idx := randRot(c, k.N)
			steps := RotSteps(k.P.Parameters, idx)
			bound = a.rel + t*(float64(steps)*k.Noise.Switch(level, len(a.ids))+2)/q
			if bound > 0.4 {
				continue
			}
			k.NeedRot(idx)
			ct = k.Eval.RotateNew(a.ct, idx, k.RtkSet)
			want = rotRows(a.msg, idx)
		case "conj":
			bound = a.rel + t*(k.Noise.Switch(level, len(a.ids))+2)/q
			if bound > 0.4 {
				continue
			}
			k.NeedConj()
			ct = k.Eval.ConjugateNew(a.ct, k.CjkSet)
			want = swapRows(a.msg)
		}
		if c.Coin(1, 2) {
			k.SKSet = Owners(k.SK, ids)
		}
		n := &bnode{binput: &binput{ct: ct, msg: want, ids: ids}, depth: d}
		n.rel = checkBFV(c, k, fmt.Sprintf("step %d (%s)", i, op), ct, ids, want, bound)
		k.SKSet = all
		if d > deepest {
			deepest = d
		}
		c.Eval("bfv/%s/own%d/d%d", op, len(ids), d)
		put(n)
	}
	for i, n := range st {
		checkBFV(c, k, fmt.Sprintf("end of the history, node %d", i), n.ct, n.ids, n.msg, n.rel*(1+1e-9))
	}
	c.Stat("depth/bfv", float64(deepest))
	c.Stat("parties/bfv", float64(len(k.IDs)))
}

var _ *ring.Poly

func init() {
	Register(&Prop{ID: "C21", Quick: 1200, Thorough: 24000, MinEvals: 1500, Run: runC21,
		Rule:        "one evaluation = one step of a random computation whose result is decrypted and compared with the plaintext computation; distinct = (operation, number of owners, level, multiplicative depth)",
		Assumptions: []string{"operations are issued only while the value fits the modulus; operands of an addition have scales that match up to an integer factor within 1%"}})
}
