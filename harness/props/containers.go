package props

import (
	"fmt"
	"sort"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C20

func runC20(c *Case) {
	switch c.Index % 8 {
	case 0, 1, 2:
		idsetHistory(c)
	case 3:
		ciphertextHistory(c)
	case 4:
		keysetHistory(c)
	case 5:
		keyCopies(c)
	case 6:
		keysetUseCKKS(c)
	default:
		keysetUseBFV(c)
	}
}

// names draws the identities a history works with.
func names(c *Case, n int) []string { return RandIDs(c.Rng, n) }

// sameSet compares an IDSet with its model in every way the interface offers.
func sameSet(s *mkrlwe.IDSet, m map[string]bool, universe []string) string {
	if s == nil {
		return "nil set"
	}
	if s.Size() != len(m) {
		return fmt.Sprintf("size %d, expected %d", s.Size(), len(m))
	}
	for _, id := range universe {
		if s.Has(id) != m[id] {
			return fmt.Sprintf("membership of %q is %v", id, s.Has(id))
		}
	}
	if s.Has("0") || s.Has("\x01never added") {
		return "has a member that was never added"
	}
	n := 0
	for id := range s.Value {
		if !m[id] {
			return fmt.Sprintf("unexpected member %q", id)
		}
		n++
	}
	if n != len(m) {
		return fmt.Sprintf("iterates over %d members, expected %d", n, len(m))
	}
	return ""
}

func copySet(m map[string]bool) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

func idsetHistory(c *Case) {
	u := names(c, c.Range(1, 9))
	type pair struct {
		s *mkrlwe.IDSet
		m map[string]bool
	}
	var st []*pair
	st = append(st, &pair{mkrlwe.NewIDSet(), map[string]bool{}})
	check := func(op string) {
		for i, p := range st {
			if d := sameSet(p.s, p.m, u); d != "" {
				c.Fatal("idset", "after %s: set %d: %s (expected %q)", op, i, d, keys(p.m))
			}
		}
	}
	put := func(p *pair) {
		if len(st) < 8 {
			st = append(st, p)
		} else {
			st[c.Intn(len(st))] = p
		}
	}
	n := c.Range(20, 60)
	for i := 0; i < n; i++ {
		x, y := st[c.Intn(len(st))], st[c.Intn(len(st))]
		id := u[c.Intn(len(u))]
		op := Pick(c.Rng, "add", "add", "add", "remove", "union", "intersection", "copy", "zero", "new")
		c.Logf("%d: %s %q |x|=%d |y|=%d", i, op, id, len(x.m), len(y.m))
		switch op {
		case "new":
			put(&pair{mkrlwe.NewIDSet(), map[string]bool{}})
		case "add":
			x.s.Add(id)
			x.m[id] = true
		case "remove":
			x.s.Remove(id)
			delete(x.m, id)
		case "union":
			m := copySet(x.m)
			for k := range y.m {
				m[k] = true
			}
			put(&pair{x.s.Union(y.s), m})
		case "intersection":
			m := map[string]bool{}
			for k := range y.m {
				if x.m[k] {
					m[k] = true
				}
			}
			put(&pair{x.s.Intersection(y.s), m})
		case "copy":
			put(&pair{x.s.CopyNew(), copySet(x.m)})
		case "zero":
			if did, _ := Panics(func() { x.s.Add("0") }); !did {
				c.Fatal("reserved", "the reserved identity \"0\" was accepted as an owner")
			}
		}
		check(op)
		c.Eval("idset/%s/%d/%d/%v", op, len(x.m), len(y.m), x == y)
	}
}

// ------------------------------------------------------------ ciphertexts

type ctModel struct {
	ct    *mkrlwe.Ciphertext
	ck    *mkckks.Ciphertext
	bf    *mkbfv.Ciphertext
	val   map[string][][]uint64
	ntt   map[string]bool
	scale float64
	level int
}

func (m *ctModel) diff() string {
	if m.ck != nil && (m.ck.Scale != m.scale || m.ck.ScalingFactor() != m.scale) {
		return fmt.Sprintf("scale %g, expected %g", m.ck.Scale, m.scale)
	}
	if m.ct.Level() != m.level {
		return fmt.Sprintf("level %d, expected %d", m.ct.Level(), m.level)
	}
	ids := m.ct.IDSet()
	if ids.Size() != len(m.val)-1 {
		return fmt.Sprintf("%d owners, expected %d", ids.Size(), len(m.val)-1)
	}
	if len(m.ct.Value) != len(m.val) {
		return fmt.Sprintf("%d components, expected %d", len(m.ct.Value), len(m.val))
	}
	for id, v := range m.val {
		p := m.ct.Value[id]
		if p == nil {
			return fmt.Sprintf("component %q missing", id)
		}
		if id != "0" && !ids.Has(id) {
			return fmt.Sprintf("owner %q missing", id)
		}
		if p.IsNTT != m.ntt[id] {
			return fmt.Sprintf("component %q: IsNTT=%v, expected %v", id, p.IsNTT, m.ntt[id])
		}
		if d := diffLimbs(v, p.Coeffs); d != "" {
			return fmt.Sprintf("component %q: %s", id, d)
		}
	}
	return ""
}

func (m *ctModel) clone() *ctModel {
	o := &ctModel{val: map[string][][]uint64{}, ntt: map[string]bool{}, scale: m.scale, level: m.level}
	for id, v := range m.val {
		o.val[id], o.ntt[id] = copyLimbs(v), m.ntt[id]
	}
	return o
}

func zeroLimbs(n, level int) [][]uint64 {
	o := make([][]uint64, level+1)
	for i := range o {
		o[i] = make([]uint64, n)
	}
	return o
}

func ciphertextHistory(c *Case) {
	isBFV := c.Coin(1, 3)
	var rp mkrlwe.Parameters
	var cp mkckks.Parameters
	var bp mkbfv.Parameters
	if isBFV {
		s := RandBFVSpec(c.Rng, BFVOpt{MaxLogN: 6, MaxQ: 4})
		c.Logf("%v", s)
		bp = NewBFVParams(s)
		rp = bp.Parameters
	} else {
		s := RandCKKSSpec(c.Rng, CKKSOpt{MaxLogN: 6, MaxQ: 6})
		c.Logf("%v", s)
		cp = NewCKKSParams(s)
		rp = cp.Parameters
	}
	u := names(c, c.Range(2, 7))
	n := rp.N()
	var st []*ctModel
	put := func(m *ctModel) {
		if len(st) < 6 {
			st = append(st, m)
		} else {
			st[c.Intn(len(st))] = m
		}
	}
	randIDs := func() (*mkrlwe.IDSet, []string) {
		s := mkrlwe.NewIDSet()
		var l []string
		for _, id := range u {
			if c.Coin(1, 2) {
				s.Add(id)
				l = append(l, id)
			}
		}
		return s, l
	}
	fresh := func() *ctModel {
		ids, l := randIDs()
		m := &ctModel{val: map[string][][]uint64{}, ntt: map[string]bool{}}
		m.level = c.Intn(rp.MaxLevel() + 1)
		ntt := false
		switch {
		case isBFV && c.Coin(2, 3):
			m.level = rp.MaxLevel()
			if ntt = c.Coin(1, 2); ntt {
				m.bf = mkbfv.NewCiphertextNTT(bp, ids)
			} else {
				m.bf = mkbfv.NewCiphertext(bp, ids)
			}
			m.ct = m.bf.Ciphertext
		case !isBFV && c.Coin(2, 3):
			m.scale = c.LogUniform(1, 1e12)
			m.ck = mkckks.NewCiphertext(cp, ids, m.level, m.scale)
			m.ct = m.ck.Ciphertext
		default:
			if ntt = c.Coin(1, 2); ntt {
				m.ct = mkrlwe.NewCiphertextNTT(rp, ids, m.level)
			} else {
				m.ct = mkrlwe.NewCiphertext(rp, ids, m.level)
			}
		}
		for _, id := range append([]string{"0"}, l...) {
			m.val[id], m.ntt[id] = zeroLimbs(n, m.level), ntt
		}
		// the container must not follow later changes of the set it was made from
		ids.Add("\x02later")
		for id := range ids.Value {
			ids.Remove(id)
		}
		return m
	}
	check := func(op string) {
		for i, m := range st {
			if d := m.diff(); d != "" {
				c.Fatal("ciphertext", "after %s: ciphertext %d: %s", op, i, d)
			}
			for j := 0; j < i; j++ {
				if d := shares(m.ct, st[j].ct); d != "" {
					c.Fatal("ciphertext-alias", "after %s: ciphertexts %d and %d: %s", op, i, j, d)
				}
			}
		}
	}
	fill := func(m *ctModel) {
		ks := keysOf(m.val)
		for _, id := range ks {
			for i := range m.val[id] {
				for j := range m.val[id][i] {
					v := c.Uint64() >> 4
					m.val[id][i][j] = v
					m.ct.Value[id].Coeffs[i][j] = v
				}
			}
		}
	}
	steps := c.Range(12, 30)
	for i := 0; i < steps; i++ {
		if len(st) == 0 {
			put(fresh())
			check("new")
		}
		m := st[c.Intn(len(st))]
		op := Pick(c.Rng, "new", "pad", "pad", "pad", "copynew", "copynew", "copy", "write", "write", "ids", "level", "scale")
		c.Logf("%d: %s on level %d, %d owners", i, op, m.level, len(m.val)-1)
		owners := len(m.val) - 1
		switch op {
		case "new":
			put(fresh())
		case "pad":
			ids, l := randIDs()
			ntt := m.ntt["0"]
			m.ct.PadCiphertext(ids)
			for _, id := range l {
				if _, in := m.val[id]; !in {
					m.val[id], m.ntt[id] = zeroLimbs(n, m.level), ntt
				}
			}
			for _, id := range l {
				if !ids.Has(id) {
					c.Fatal("pad", "padding changed the identity set it was given (%q is missing)", id)
				}
			}
			if ids.Size() != len(l) {
				c.Fatal("pad", "padding changed the identity set it was given")
			}
		case "copynew":
			o := m.clone()
			switch {
			case m.ck != nil:
				o.ck = m.ck.CopyNew()
				o.ct = o.ck.Ciphertext
			case m.bf != nil:
				o.bf = m.bf.CopyNew()
				o.ct = o.bf.Ciphertext
			default:
				o.ct = m.ct.CopyNew()
			}
			put(o)
		case "copy":
			// into a container made for the same owners and level
			ids := m.ct.IDSet()
			o := m.clone()
			o.ct = mkrlwe.NewCiphertext(rp, ids, m.level)
			o.ct.Copy(m.ct)
			put(o)
		case "write":
			fill(m)
			if c.Coin(1, 3) {
				f := c.Coin(1, 2)
				for id := range m.val {
					m.ntt[id] = f
					m.ct.Value[id].IsNTT = f
				}
			}
		case "ids":
			s := m.ct.IDSet()
			if s.Has("0") {
				c.Fatal("owners", "the constant term is listed as an owner")
			}
			s.Add("\x02other")
			for id := range s.Value {
				s.Remove(id)
			}
		case "level":
			if m.level > 0 {
				m.level--
				for id := range m.val {
					m.val[id] = m.val[id][:m.level+1]
					m.ct.Value[id].Coeffs = m.ct.Value[id].Coeffs[:m.level+1]
				}
			}
		case "scale":
			if m.ck != nil {
				m.scale = c.LogUniform(1, 1e12)
				m.ck.SetScalingFactor(m.scale)
			}
		}
		check(op)
		c.Eval("ciphertext/%s/bfv=%v/own%d/l%d/ntt=%v", op, isBFV, owners, m.level, m.ntt["0"])
	}
}

func keysOf(m map[string][][]uint64) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

// --------------------------------------------------------------- key sets

// box is a key set seen through functions, with marks instead of keys.
type box struct {
	kind *keyKind
	add  func(k interface{})
	del  func(id string)
	get  func(id string) interface{}
	m    map[string]uint64
}

// keyKind is a kind of keys, with every key made so far.
type keyKind struct {
	name string
	mk   func(id string, v uint64) interface{}
	read func(k interface{}) (owner string, mark uint64)
	keys []heldKey
}

type heldKey struct {
	k    interface{}
	id   string
	mark uint64
}

func mark(p rlwe.PolyQP, v uint64) { p.Q.Coeffs[0][0] = v }

func keysetHistory(c *Case) {
	var rp mkrlwe.Parameters
	var boxes []*box
	withBFV := c.Coin(1, 2)
	var bp mkbfv.Parameters
	if withBFV {
		s := RandBFVSpec(c.Rng, BFVOpt{MaxLogN: 5, MaxQ: 3})
		bp = NewBFVParams(s)
		rp = bp.Parameters
	} else {
		rp = NewRLWEParams(RandRLWESpec(c.Rng, 5, 4))
	}
	u := names(c, c.Range(2, 6))
	// now and then a crowd with many keys each
	crowd := c.Coin(1, 16)
	if crowd {
		u = names(c, c.Range(30, 90))
	}
	kinds := []*keyKind{
		{"secret", func(id string, v uint64) interface{} {
			k := mkrlwe.NewSecretKey(rp, id)
			mark(k.Value, v)
			return k
		}, func(k interface{}) (string, uint64) {
			return k.(*mkrlwe.SecretKey).ID, k.(*mkrlwe.SecretKey).Value.Q.Coeffs[0][0]
		}, nil},
		{"public", func(id string, v uint64) interface{} {
			k := mkrlwe.NewPublicKey(rp, id)
			mark(k.Value[1], v)
			return k
		}, func(k interface{}) (string, uint64) {
			return k.(*mkrlwe.PublicKey).ID, k.(*mkrlwe.PublicKey).Value[1].Q.Coeffs[0][0]
		}, nil},
		{"conjugation", func(id string, v uint64) interface{} {
			k := mkrlwe.NewConjugationKey(rp, id)
			mark(k.Value.Value[0], v)
			return k
		}, func(k interface{}) (string, uint64) {
			return k.(*mkrlwe.ConjugationKey).ID, k.(*mkrlwe.ConjugationKey).Value.Value[0].Q.Coeffs[0][0]
		}, nil},
		{"relinearization", func(id string, v uint64) interface{} {
			k := mkrlwe.NewRelinearizationKey(rp, id)
			mark(k.Value[2].Value[0], v)
			return k
		}, func(k interface{}) (string, uint64) {
			return k.(*mkrlwe.RelinearizationKey).ID, k.(*mkrlwe.RelinearizationKey).Value[2].Value[0].Q.Coeffs[0][0]
		}, nil},
	}
	if withBFV {
		kinds = append(kinds, &keyKind{"bfv relinearization", func(id string, v uint64) interface{} {
			k := mkbfv.NewRelinearizationKey(bp, id)
			mark(k.Value[1].Value[0].Value[0], v)
			return k
		}, func(x interface{}) (string, uint64) {
			k := x.(*mkbfv.RelinearizationKey)
			if k.Value[0].ID != k.ID || k.Value[1].ID != k.ID {
				return "<mixed owners>", 0
			}
			return k.ID, k.Value[1].Value[0].Value[0].Q.Coeffs[0][0]
		}, nil})
	}
	// two sets of each kind, which may hold the same key objects
	nsets := c.Range(1, 2)
	rtss := make([]*mkrlwe.RotationKeySet, nsets)
	for n := 0; n < nsets; n++ {
		sks, pks, cks := mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewConjugationKeySet()
		rls := mkrlwe.NewRelinearizationKeyKeySet(rp)
		rtss[n] = mkrlwe.NewRotationKeySet()
		boxes = append(boxes,
			&box{kinds[0], func(k interface{}) { sks.AddSecretKey(k.(*mkrlwe.SecretKey)) }, sks.DelSecretKey,
				func(id string) interface{} { return sks.GetSecretKey(id) }, map[string]uint64{}},
			&box{kinds[1], func(k interface{}) { pks.AddPublicKey(k.(*mkrlwe.PublicKey)) }, pks.DelPublicKey,
				func(id string) interface{} { return pks.GetPublicKey(id) }, map[string]uint64{}},
			&box{kinds[2], func(k interface{}) { cks.AddConjugationKey(k.(*mkrlwe.ConjugationKey)) }, cks.DelConjugationKey,
				func(id string) interface{} { return cks.GetConjugationKey(id) }, map[string]uint64{}},
			&box{kinds[3], func(k interface{}) { rls.AddRelinearizationKey(k.(*mkrlwe.RelinearizationKey)) }, rls.DelRelinearizationKey,
				func(id string) interface{} { return rls.GetRelinearizationKey(id) }, map[string]uint64{}})
		if withBFV {
			set := mkbfv.NewRelinearizationKeyKeySet(bp)
			boxes = append(boxes, &box{kinds[4], func(k interface{}) { set.AddRelinearizationKey(k.(*mkbfv.RelinearizationKey)) }, set.DelRelinearizationKey,
				func(id string) interface{} { return set.GetRelinearizationKey(id) }, map[string]uint64{}})
		}
	}
	// rotation keys: one box per index
	h := rp.N() / 2
	idxs := []uint{1, uint(h - 1), uint(c.Range(1, h-1)), 0, uint(h)}
	if crowd {
		for i := 0; i < c.Range(30, 150); i++ {
			idxs = append(idxs, uint(2+i))
		}
	}
	type rk struct {
		set int
		id  string
		idx uint
	}
	rot := map[rk]uint64{}
	type heldRot struct {
		k    *mkrlwe.RotationKey
		id   string
		idx  uint
		mark uint64
	}
	var rotKeys []heldRot
	var next uint64 = 1
	all := append(append([]string{}, u...), "\x03absent", "0")
	check := func(op string) {
		for _, kind := range kinds {
			for _, h := range kind.keys {
				if id, m := kind.read(h.k); id != h.id || m != h.mark {
					c.Fatal("key-changed", "after %s: the %s key #%d of %q is now #%d of %q", op, kind.name, h.mark, h.id, m, id)
				}
			}
		}
		for _, h := range rotKeys {
			if m := h.k.Value.Value[0].Q.Coeffs[0][0]; h.k.ID != h.id || h.k.RotIdx != h.idx || m != h.mark {
				c.Fatal("key-changed", "after %s: the rotation key #%d of %q for %d is now #%d of %q for %d", op, h.mark, h.id, h.idx, m, h.k.ID, h.k.RotIdx)
			}
		}
		for _, b := range boxes {
			for _, id := range all {
				want, in := b.m[id]
				var owner string
				var got uint64
				did, _ := Panics(func() { owner, got = b.kind.read(b.get(id)) })
				switch {
				case !in && !did:
					c.Fatal("keyset-missing", "after %s: the %s key set returned a key of %q, which it does not hold", op, b.kind.name, id)
				case in && did:
					c.Fatal("keyset-lost", "after %s: the %s key set refuses the key of %q it holds", op, b.kind.name, id)
				case in && (owner != id || got != want):
					c.Fatal("keyset-wrong", "after %s: the %s key set returned for %q the key #%d of %q, expected #%d", op, b.kind.name, id, got, owner, want)
				}
			}
		}
		for n, rts := range rtss {
			for _, id := range all {
				for _, idx := range append(append([]uint{}, idxs...), 2, 1<<20) {
					want, in := rot[rk{n, id, idx}]
					var k *mkrlwe.RotationKey
					did, _ := Panics(func() { k = rts.GetRotationKey(id, idx) })
					switch {
					case !in && !did:
						c.Fatal("keyset-missing", "after %s: the rotation key set returned a key of %q for %d, which it does not hold", op, id, idx)
					case in && did:
						c.Fatal("keyset-lost", "after %s: the rotation key set refuses the key of %q for %d it holds", op, id, idx)
					case in && (k.ID != id || k.RotIdx != idx || k.Value.Value[0].Q.Coeffs[0][0] != want):
						c.Fatal("keyset-wrong", "after %s: the rotation key set returned for %q, %d the key #%d of %q for %d, expected #%d", op, id, idx,
							k.Value.Value[0].Q.Coeffs[0][0], k.ID, k.RotIdx, want)
					}
				}
			}
		}
	}
	check("creation")
	steps := c.Range(20, 50)
	if crowd {
		steps = c.Range(600, 1200)
	}
	rich := u[:1+c.Intn(2)] // have most of the rotation keys
	for i := 0; i < steps; i++ {
		id := u[c.Intn(len(u))]
		del := c.Coin(1, 3)
		again := c.Coin(1, 3)
		if crowd {
			del, again = c.Coin(1, 8), c.Coin(1, 8)
		}
		var op string
		held := false
		if c.Coin(1, 3) {
			idx, n := idxs[c.Intn(len(idxs))], c.Intn(nsets)
			if crowd && c.Coin(3, 4) {
				id, n = rich[c.Intn(len(rich))], 0
			}
			if del {
				_, held = rot[rk{n, id, idx}]
				op = "deleting a rotation key"
				rtss[n].DelRotationKey(id, idx)
				delete(rot, rk{n, id, idx})
			} else {
				op = "adding a rotation key"
				if again && len(rotKeys) > 0 {
					op = "adding an older rotation key"
				} else {
					k := mkrlwe.NewRotationKey(rp, idx, id)
					mark(k.Value.Value[0], next)
					rotKeys = append(rotKeys, heldRot{k, id, idx, next})
				}
				h := rotKeys[len(rotKeys)-1]
				if again {
					h = rotKeys[c.Intn(len(rotKeys))]
				}
				id = h.id
				_, held = rot[rk{n, id, h.idx}]
				rtss[n].AddRotationKey(h.k)
				rot[rk{n, id, h.idx}] = h.mark
			}
		} else {
			b := boxes[c.Intn(len(boxes))]
			if del {
				_, held = b.m[id]
				op = "deleting a " + b.kind.name + " key"
				b.del(id)
				delete(b.m, id)
			} else {
				op = "adding a " + b.kind.name + " key"
				if again && len(b.kind.keys) > 0 {
					op = "adding an older " + b.kind.name + " key"
				} else {
					b.kind.keys = append(b.kind.keys, heldKey{b.kind.mk(id, next), id, next})
				}
				h := b.kind.keys[len(b.kind.keys)-1]
				if again {
					h = b.kind.keys[c.Intn(len(b.kind.keys))]
				}
				id = h.id
				_, held = b.m[id]
				b.add(h.k)
				b.m[id] = h.mark
			}
		}
		next++
		if crowd {
			if i%100 == 99 || i == steps-1 {
				check(fmt.Sprintf("%d operations", i+1))
				most := map[string]int{}
				for k := range rot {
					if k.set == 0 {
						most[k.id]++
					}
				}
				c.Logf("after %d operations %q has %d rotation keys of %d", i+1, rich[0], most[rich[0]], len(rot))
				c.Eval("keyset/crowd/%d parties/%d rotation keys of one/sets%d", len(u), most[rich[0]], nsets)
			}
			continue
		}
		c.Logf("%d: %s of %q (held %v, %d sets)", i, op, id, held, nsets)
		check(op)
		c.Eval("keyset/%s/held=%v/sets%d", op, held, nsets)
	}
}

// ------------------------------------------------------------- key copies

func polyQPs(v ...rlwe.PolyQP) (o [][][]uint64) {
	for _, x := range v {
		o = append(o, copyLimbs(x.Q.Coeffs), copyLimbs(x.P.Coeffs))
	}
	return
}

func keyCopies(c *Case) {
	spec := RandRLWESpec(c.Rng, 6, 4)
	rp := NewRLWEParams(spec)
	kg := mkrlwe.NewKeyGenerator(rp)
	id := names(c, 1)[0]
	sk, pk := kg.GenKeyPair(id)
	scribble := func(v ...rlwe.PolyQP) {
		for _, x := range v {
			for _, p := range []*ring.Poly{x.Q, x.P} {
				for _, l := range p.Coeffs {
					for j := range l {
						l[j] ^= 0x5555
					}
				}
				p.IsNTT = !p.IsNTT
			}
		}
	}
	same := func(what string, a, b [][][]uint64) {
		if len(a) != len(b) {
			c.Fatal("key-copy", "%s: %d polynomials instead of %d", what, len(b), len(a))
		}
		for i := range a {
			if d := diffLimbs(a[i], b[i]); d != "" {
				c.Fatal("key-copy", "%s: %s", what, d)
			}
		}
	}
	orig := polyQPs(sk.Value)
	cp := sk.CopyNew()
	if cp == nil || cp.ID != id {
		c.Fatal("key-copy", "the copy of the secret key has another owner")
	}
	same("copy of the secret key", orig, polyQPs(cp.Value))
	scribble(cp.Value)
	cp.ID = "other"
	same("secret key after its copy was changed", orig, polyQPs(sk.Value))
	cp = sk.CopyNew()
	scribble(sk.Value)
	same("copy of a secret key that was changed later", orig, polyQPs(cp.Value))
	if sk.ID != id {
		c.Fatal("key-copy", "the owner of the secret key changed with its copy")
	}
	porig := polyQPs(pk.Value[0], pk.Value[1])
	pc := pk.CopyNew()
	if pc == nil || pc.ID != id {
		c.Fatal("key-copy", "the copy of the public key has another owner")
	}
	same("copy of the public key", porig, polyQPs(pc.Value[0], pc.Value[1]))
	scribble(pc.Value[0], pc.Value[1])
	same("public key after its copy was changed", porig, polyQPs(pk.Value[0], pk.Value[1]))
	pc = pk.CopyNew()
	scribble(pk.Value[0], pk.Value[1])
	same("copy of a public key that was changed later", porig, polyQPs(pc.Value[0], pc.Value[1]))
	var nsk *mkrlwe.SecretKey
	var npk *mkrlwe.PublicKey
	if nsk.CopyNew() != nil || npk.CopyNew() != nil {
		c.Fatal("key-copy", "the copy of no key is a key")
	}
	c.Eval("keycopy/n%d/q%d/p%d", spec.LogN, len(spec.Q), len(spec.P))

	// new keys hold zeros, the right number of digits and their own storage
	beta := (len(spec.Q) + rp.Alpha() - 1) / rp.Alpha()
	zero := func(what string, n int, v []rlwe.PolyQP) {
		if len(v) != n {
			c.Fatal("new-key", "%s has %d digits, expected %d", what, len(v), n)
		}
		seen := map[*uint64]bool{}
		for _, x := range v {
			if len(x.Q.Coeffs) != len(spec.Q) || len(x.P.Coeffs) != len(spec.P) {
				c.Fatal("new-key", "%s: a digit has %d+%d limbs", what, len(x.Q.Coeffs), len(x.P.Coeffs))
			}
			for _, l := range append(append([][]uint64{}, x.Q.Coeffs...), x.P.Coeffs...) {
				if len(l) != rp.N() {
					c.Fatal("new-key", "%s: a limb has %d coefficients", what, len(l))
				}
				if seen[&l[0]] {
					c.Fatal("new-key", "%s: two digits share storage", what)
				}
				seen[&l[0]] = true
				for _, y := range l {
					if y != 0 {
						c.Fatal("new-key", "%s is not zero", what)
					}
				}
			}
		}
	}
	rlk := mkrlwe.NewRelinearizationKey(rp, id)
	var all []rlwe.PolyQP
	for i := range rlk.Value {
		all = append(all, rlk.Value[i].Value...)
	}
	zero("new relinearization key", 3*beta, all)
	rk := mkrlwe.NewRotationKey(rp, 3, id)
	zero("new rotation key", beta, rk.Value.Value)
	ck := mkrlwe.NewConjugationKey(rp, id)
	zero("new conjugation key", beta, ck.Value.Value)
	zero("new switching key", beta, mkrlwe.NewSwitchingKey(rp).Value)
	zero("new secret key", 1, []rlwe.PolyQP{mkrlwe.NewSecretKey(rp, id).Value})
	npk = mkrlwe.NewPublicKey(rp, id)
	zero("new public key", 2, npk.Value[:])
	if rlk.ID != id || rk.ID != id || rk.RotIdx != 3 || ck.ID != id || npk.ID != id {
		c.Fatal("new-key", "a new key has another owner or index")
	}
	c.Eval("newkeys/n%d/q%d/p%d", spec.LogN, len(spec.Q), len(spec.P))
}

// -------------------------------------------- key sets as operations use them

// keysetUseCKKS runs operations while keys are deleted, replaced and joined.
func keysetUseCKKS(c *Case) {
	k := NewCKKS(c, RandCKKSSpec(c.Rng, CKKSOpt{MinQ: 3, MaxQ: 6, MaxLogN: 7}), c.Range(2, 4))
	k.NeedRlk()
	k.NeedConj()
	idx := randRot(c, k.N)
	k.NeedRot(idx)
	steps := RotSteps(k.P.Parameters, idx)
	var some []string
	for len(some) < 1 || len(some) == len(k.IDs) {
		some = k.Subset()
	}
	in := setOf(some)
	var outside string
	for _, id := range k.IDs {
		if !in[id] {
			outside = id
		}
	}
	lvl := k.P.MaxLevel()
	a := makeInput(c, k, some, lvl, k.P.Scale(), 1)
	b := makeInput(c, k, []string{some[c.Intn(len(some))]}, lvl, k.P.Scale(), 1)
	mul := func() *mkckks.Ciphertext { return k.Eval.MulRelinNew(a.ct, b.ct, k.RlkSet) }
	rot := func() *mkckks.Ciphertext { return k.Eval.RotateNew(a.ct, idx, k.RtkSet) }
	cnj := func() *mkckks.Ciphertext { return k.Eval.ConjugateNew(a.ct, k.CjkSet) }
	ok := func(when string) {
		checkMul(c, k, "product "+when, a, b, mul())
		checkRot(c, k, "rotation "+when, a, idx, steps, rot())
		twice := k.Eval.ConjugateNew(cnj(), k.CjkSet)
		checkRot(c, k, "double conjugation "+when, a, 0, 2, twice)
	}
	refused := func(what string, f func() *mkckks.Ciphertext) {
		if did, _ := Panics(func() { f() }); !did {
			c.Fatal("keyset-use", "%s went through without the key of an owner", what)
		}
	}
	ok("with all keys")
	rk := k.RtkSet
	for _, id := range k.IDs {
		if id == outside {
			k.RlkSet.DelRelinearizationKey(id)
			k.CjkSet.DelConjugationKey(id)
			for i := range rk.Value[id] {
				rk.DelRotationKey(id, i)
			}
		}
	}
	ok("without the keys of a party that is not involved")
	v := some[c.Intn(len(some))]
	old := k.RlkSet.GetRelinearizationKey(v)
	k.RlkSet.DelRelinearizationKey(v)
	refused("a product", mul)
	if c.Coin(1, 2) {
		k.RlkSet.AddRelinearizationKey(old)
	} else {
		k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(k.SK[v], k.Kgen.GenSecretKey(v)))
	}
	oldc := k.CjkSet.GetConjugationKey(v)
	k.CjkSet.DelConjugationKey(v)
	refused("a conjugation", cnj)
	k.CjkSet.AddConjugationKey(oldc)
	if steps > 0 {
		h := k.N / 2
		n := ((idx % h) + h) % h
		if _, in := k.P.CRS[n]; !in {
			n = n & -n
		}
		oldr := k.RtkSet.GetRotationKey(v, uint(n))
		k.RtkSet.DelRotationKey(v, uint(n))
		refused("a rotation", rot)
		k.RtkSet.AddRotationKey(oldr)
	}
	ok("after the keys came back")
	c.Eval("use/ckks/%s/own%d/steps%d", k.Spec.Shape(), len(some), steps)
}

func keysetUseBFV(c *Case) {
	k := NewBFV(c, RandBFVSpec(c.Rng, BFVOpt{MaxLogN: 7, MaxQ: 4}), c.Range(2, 4))
	k.NeedRlk()
	k.NeedConj()
	idx := randRot(c, k.N)
	k.NeedRot(idx)
	steps := RotSteps(k.P.Parameters, idx)
	var some []string
	for len(some) < 1 || len(some) == len(k.IDs) {
		some = Subset(c.Rng, k.IDs)
	}
	in := setOf(some)
	var outside string
	for _, id := range k.IDs {
		if !in[id] {
			outside = id
		}
	}
	ia, ib := makeBInput(c, k, some), makeBInput(c, k, []string{some[c.Intn(len(some))]})
	a, b := ia.ct, ib.ct
	soft, _ := bfvMulBound(k, ia, ib)
	mul := func() *mkbfv.Ciphertext { return k.Eval.MulRelinNew(a, b, k.RlkSet) }
	rot := func() *mkbfv.Ciphertext { return k.Eval.RotateNew(a, idx, k.RtkSet) }
	cnj := func() *mkbfv.Ciphertext { return k.Eval.ConjugateNew(a, k.CjkSet) }
	sw := k.Noise.Switch(k.P.MaxLevel(), len(some))
	rel := func(n int) float64 { return ia.rel + float64(k.T)*(float64(n)*sw+2)/qf(k) }
	ok := func(when string) {
		if p := mul(); soft < 0.4 {
			checkBFV(c, k, "product "+when, p, in, mulMsg(ia.msg, ib.msg, k.T), 0.5)
		}
		if rel(steps) < 0.4 {
			checkBFV(c, k, "rotation "+when, rot(), in, rotRows(ia.msg, idx), rel(steps))
		}
		if rel(1) < 0.4 {
			checkBFV(c, k, "conjugation "+when, cnj(), in, swapRows(ia.msg), rel(1))
		}
	}
	refused := func(what string, f func() *mkbfv.Ciphertext) {
		if did, _ := Panics(func() { f() }); !did {
			c.Fatal("keyset-use", "%s went through without the key of an owner", what)
		}
	}
	ok("with all keys")
	k.RlkSet.DelRelinearizationKey(outside)
	k.CjkSet.DelConjugationKey(outside)
	for i := range k.RtkSet.Value[outside] {
		k.RtkSet.DelRotationKey(outside, i)
	}
	ok("without the keys of a party that is not involved")
	v := some[c.Intn(len(some))]
	old := k.RlkSet.GetRelinearizationKey(v)
	k.RlkSet.DelRelinearizationKey(v)
	refused("a product", mul)
	if c.Coin(1, 2) {
		k.RlkSet.AddRelinearizationKey(old)
	} else {
		k.RlkSet.AddRelinearizationKey(k.Kgen.GenRelinearizationKey(k.SK[v], k.Kgen.GenSecretKey(v)))
	}
	oldc := k.CjkSet.GetConjugationKey(v)
	k.CjkSet.DelConjugationKey(v)
	refused("a conjugation", cnj)
	k.CjkSet.AddConjugationKey(oldc)
	if steps > 0 {
		h := k.N / 2
		n := ((idx % h) + h) % h
		if _, in := k.P.CRS[n]; !in {
			n = n & -n
		}
		oldr := k.RtkSet.GetRotationKey(v, uint(n))
		k.RtkSet.DelRotationKey(v, uint(n))
		refused("a rotation", rot)
		k.RtkSet.AddRotationKey(oldr)
	}
	ok("after the keys came back")
	c.Eval("use/bfv/%s/own%d/steps%d", k.Spec.Shape(), len(some), steps)
}

func init() {
	Register(&Prop{ID: "C20", Quick: 4500, Thorough: 90000, MinEvals: 5000, Run: runC20,
		Rule:        "one evaluation = one step of a history of container operations after which every container is compared with the reference model, or one operation after a change of a key set; distinct = (kind of step, sizes, owners, level, domain)",
		Assumptions: []string{"Ciphertext.Copy is used between ciphertexts of the same owners and level (its contract)"}})
}
