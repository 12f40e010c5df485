package props

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// ---------------------------------------------------------------- C22

const (
	nnKernels = 5
	nnBlock   = 14
	nnConv    = 13
	nnUnits   = 64
	nnClasses = 10
	nnGap     = 128
	nnSlots   = 8192
)

var nnRots = []int{14, 15, 384, 640, 768, 896, -1, -2, -4, -8}

// network is one plaintext network and image.
type network struct {
	image [28][28]float64
	kern  [nnKernels][4][4]float64
	fc1   [][]float64 // 845 x 64, row i + 5*(13j+k)
	b1    []float64
	fc2   [][]float64 // 64 x 10
	b2    []float64
}

func fillFloats(c *Case, n int, mag float64) []float64 {
	o := make([]float64, n)
	kind := Pick(c.Rng, "uniform", "uniform", "sparse", "positive", "extreme", "zero", "ramp")
	if kind == "zero" && c.Coin(2, 3) {
		kind = "uniform"
	}
	for i := range o {
		switch kind {
		case "uniform":
			o[i] = c.Sym(mag)
		case "sparse":
			if c.Coin(1, 8) {
				o[i] = c.Sym(mag)
			}
		case "positive":
			o[i] = c.Float64() * mag
		case "extreme":
			o[i] = Pick(c.Rng, mag, -mag)
		case "ramp":
			o[i] = mag * float64(i%97) / 97
		}
	}
	return o
}

func randNetwork(c *Case) *network {
	n := &network{}
	im := fillFloats(c, 28*28, 1)
	for i := range im {
		n.image[i/28][i%28] = math.Abs(im[i])
	}
	kr := fillFloats(c, nnKernels*16, 0.5)
	for i, v := range kr {
		n.kern[i/16][i%16/4][i%4] = v
	}
	f1 := fillFloats(c, 845*nnUnits, 0.05)
	for i := 0; i < 845; i++ {
		n.fc1 = append(n.fc1, f1[i*nnUnits:(i+1)*nnUnits])
	}
	n.b1 = fillFloats(c, nnUnits, 0.5)
	f2 := fillFloats(c, nnUnits*nnClasses, 0.3)
	for i := 0; i < nnUnits; i++ {
		n.fc2 = append(n.fc2, f2[i*nnClasses:(i+1)*nnClasses])
	}
	n.b2 = fillFloats(c, nnClasses, 0.5)
	return n
}

func pos(k, i, j int) int { return nnBlock*nnBlock*k + nnBlock*i + j }

// packed plaintexts, as the package documents them through its example

func (n *network) packImage() []float64 {
	v := make([]float64, nnSlots)
	for k := 0; k < nnKernels; k++ {
		for i := 0; i < nnBlock; i++ {
			for j := 0; j < nnBlock; j++ {
				for d := 0; d < 4; d++ {
					v[pos(k, i, j)+1024*d] = n.image[2*i+d/2][2*j+d%2]
				}
			}
		}
	}
	copy(v[4096:], v[:4096])
	return v
}

func (n *network) packKernels() [][]float64 {
	o := make([][]float64, 4)
	for q := range o {
		v := make([]float64, nnSlots)
		for k := 0; k < nnKernels; k++ {
			for i := 0; i < nnConv; i++ {
				for j := 0; j < nnConv; j++ {
					for d := 0; d < 4; d++ {
						v[pos(k, i, j)+1024*d] = n.kern[k][q/2*2+d/2][q%2*2+d%2]
					}
				}
			}
		}
		copy(v[4096:], v[:4096])
		o[q] = v
	}
	return o
}

// conv is the convolution layer on plaintexts: kernels of 4x4, stride 2.
func (n *network) conv() []float64 {
	o := make([]float64, 1024)
	for k := 0; k < nnKernels; k++ {
		for i := 0; i < nnConv; i++ {
			for j := 0; j < nnConv; j++ {
				s := 0.0
				for u := 0; u < 4; u++ {
					for v := 0; v < 4; v++ {
						s += n.image[2*i+u][2*j+v] * n.kern[k][u][v]
					}
				}
				o[pos(k, i, j)] = s
			}
		}
	}
	return o
}

// repeat lays a vector of 1024 entries out over all slots.
func repeat(v []float64) []float64 {
	o := make([]float64, nnSlots)
	for i := range o {
		o[i] = v[i%len(v)]
	}
	return o
}

func (n *network) packFC1() [][]float64 {
	w := make([][]float64, nnUnits)
	for l := range w {
		w[l] = make([]float64, 1024)
		for k := 0; k < nnKernels; k++ {
			for i := 0; i < nnConv; i++ {
				for j := 0; j < nnConv; j++ {
					w[l][pos(k, i, j)] = n.fc1[k+nnKernels*(i*nnConv+j)][l]
				}
			}
		}
	}
	o := make([][]float64, 8)
	for i := range o {
		o[i] = make([]float64, nnSlots)
		for j := 0; j < 64; j++ {
			for k := 0; k < 128; k++ {
				o[i][128*j+k] = w[j][128*((i+j)%8)+k]
			}
		}
	}
	return o
}

// dense1 is the first fully connected layer on an input laid out as conv's output.
func (n *network) dense1(in []float64) []float64 {
	o := make([]float64, nnUnits)
	for l := range o {
		s := n.b1[l]
		for k := 0; k < nnKernels; k++ {
			for i := 0; i < nnConv; i++ {
				for j := 0; j < nnConv; j++ {
					s += in[pos(k, i, j)] * n.fc1[k+nnKernels*(i*nnConv+j)][l]
				}
			}
		}
		o[l] = s
	}
	return o
}

func (n *network) packB1() []float64 {
	v := make([]float64, nnSlots)
	for i, b := range n.b1 {
		v[i*nnGap] = b
	}
	return v
}

func (n *network) packFC2() []float64 {
	v := make([]float64, nnSlots)
	for x := 0; x < nnUnits; x++ {
		for y := 0; y < nnClasses; y++ {
			v[x*nnGap+y] = n.fc2[x][y]
		}
	}
	return v
}

func (n *network) packB2() []float64 {
	v := make([]float64, nnSlots)
	copy(v, n.b2)
	return v
}

func (n *network) dense2(in []float64) []float64 {
	o := make([]float64, nnClasses)
	for y := range o {
		o[y] = n.b2[y]
		for x := range in {
			o[y] += in[x] * n.fc2[x][y]
		}
	}
	return o
}

func square(v []float64) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = v[i] * v[i]
	}
	return o
}

func maxAbsF(v []float64) (m float64) {
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return
}

// nnSpec draws parameters for the given number of levels.
func nnSpec(c *Case, nq int) *Spec {
	used := map[uint64]bool{}
	s := &Spec{Family: "nn", LogN: 14, LogSlots: 13, Sigma: 3.2, Gamma: 2}
	b := c.Range(42, 46)
	s.Scale = math.Ldexp(1, b)
	s.Q = append(NTTPrimes(c.Rng, 14, b+13, 1, used), NTTPrimesNear(c.Rng, 14, b, 24, nq-1, used)...)
	s.P = NTTPrimesNear(c.Rng, 14, b+1, 10, Pick(c.Rng, 2, 2, 2, 4), used)
	return s
}

type nnCtx struct {
	*CKKS
	c    *Case
	snap map[string]*snap
	in   map[string]*mkckks.Ciphertext
	hin  map[string]map[string]uint64
	hct  map[string]*mkrlwe.HoistedCiphertext
}

func newNN(c *Case, nq, parties int) *nnCtx {
	k := &nnCtx{CKKS: NewCKKS(c, nnSpec(c, nq), parties), c: c,
		snap: map[string]*snap{}, in: map[string]*mkckks.Ciphertext{}, hin: map[string]map[string]uint64{}, hct: map[string]*mkrlwe.HoistedCiphertext{}}
	k.NeedRlk()
	for _, i := range nnRots {
		k.P.AddCRS(i)
	}
	return k
}

// need makes the rotation keys of one layer.
func (k *nnCtx) need(idx ...int) {
	for _, i := range idx {
		k.NeedRot(i)
	}
}

func (k *nnCtx) encrypt(name, id string, v []float64, level int) *mkckks.Ciphertext {
	m := mkckks.NewMessage(k.P)
	for i := range v {
		m.Value[i] = complex(v[i], 0)
	}
	ct := k.Enc.EncryptMsgNew(m, k.PK[id])
	if d := ct.Level() - level; d > 0 {
		ct = TruncCT(k.R, ct, level)
	}
	return k.watch(name, ct)
}

// watch registers an input whose contents must not change.
func (k *nnCtx) watch(name string, ct *mkckks.Ciphertext) *mkckks.Ciphertext {
	k.in[name], k.snap[name] = ct, snapCT(ct)
	return ct
}

func (k *nnCtx) hoisted(name string, ct *mkckks.Ciphertext) *mkrlwe.HoistedCiphertext {
	h := k.Eval.HoistedForm(ct)
	k.hct[name], k.hin[name] = h, hoistHash(h)
	return h
}

// replace gives an input new contents: in the same object, or in another one.
func (k *nnCtx) replace(name, id string, v []float64) *mkckks.Ciphertext {
	old := k.in[name]
	ct := k.encrypt(name, id, v, old.Level())
	if k.c.Coin(1, 3) {
		return ct
	}
	for id, p := range ct.Value {
		for i := range p.Coeffs {
			copy(old.Value[id].Coeffs[i], p.Coeffs[i])
		}
	}
	return k.watch(name, old)
}

// rehoist is the hoisted form of an input's new contents.
func (k *nnCtx) rehoist(name string, ct *mkckks.Ciphertext) *mkrlwe.HoistedCiphertext {
	old := k.hct[name]
	h := k.hoisted(name, ct)
	if k.c.Coin(1, 3) {
		return h
	}
	for id, s := range h.Value {
		for i, v := range s.Value {
			for l := range v.Q.Coeffs {
				copy(old.Value[id].Value[i].Q.Coeffs[l], v.Q.Coeffs[l])
			}
			for l := range v.P.Coeffs {
				copy(old.Value[id].Value[i].P.Coeffs[l], v.P.Coeffs[l])
			}
		}
	}
	k.hct[name], k.hin[name] = old, hoistHash(old)
	return old
}

func (k *nnCtx) unchanged(layer string) {
	for name, ct := range k.in {
		if d := k.snap[name].diff(ct); d != "" {
			k.c.Fatal("input-changed", "%s changed its input %s: %s", layer, name, d)
		}
	}
	for name, h := range k.hct {
		now := hoistHash(h)
		for id, v := range k.hin[name] {
			if now[id] != v {
				k.c.Fatal("input-changed", "%s changed the hoisted form of %s", layer, name)
			}
		}
	}
}

// compare checks the given slots of a layer's output.
func (k *nnCtx) compare(layer string, ct *mkckks.Ciphertext, ids map[string]bool, at func(i int) int, want []float64, mag float64) {
	CheckShape(k.c, layer, ct.Ciphertext, ids, ct.Level())
	got := k.Dec.Decrypt(ct, Owners(k.SK, ids)).Value
	// noise, and the distance between the primes and the scale, which is what
	// sums of terms rescaled a different number of times differ by
	drift := 0.0
	for _, q := range k.Spec.Q[1:] {
		drift += math.Abs(float64(q)/k.Spec.Scale - 1)
	}
	tol := (math.Ldexp(1, 28)/k.P.Scale() + 2*drift) * (1 + mag)
	worst := 0.0
	for i, w := range want {
		g := got[at(i)]
		d := math.Hypot(real(g)-w, imag(g))
		if !(d <= tol) {
			k.c.Fatal("layer", "%s: slot %d is %v, the plaintext layer gives %g (tolerance %g)", layer, at(i), g, w, tol)
		}
		worst = math.Max(worst, d)
	}
	k.c.Stat("error/tolerance "+layer, worst/tol)
}

func ident(i int) int { return i }

func (k *nnCtx) mask() *ckks.Plaintext {
	m := mkckks.NewMessage(k.P)
	for i := 0; i < nnSlots; i += nnGap {
		m.Value[i] = 1
	}
	return k.Enc.EncodeMsgNew(m)
}

// roles distributes the data over the parties.
func (k *nnCtx) roles(n int) []string {
	o := make([]string, n)
	for i := range o {
		o[i] = k.IDs[c0(k.c, len(k.IDs), i)]
	}
	return o
}

func c0(c *Case, n, i int) int {
	if i == 0 {
		return 0
	}
	return c.Intn(n)
}

func runC22(c *Case) {
	switch {
	case c.Index == 0 || c.Thorough() && c.Index%8 == 0:
		wholeNetwork(c)
	case c.Index%3 == 0:
		convLayer(c)
	case c.Index%3 == 1:
		fc1Layer(c)
	default:
		fc2Layer(c)
	}
}

func convLayer(c *Case) {
	nq := c.Range(2, 4)
	k := newNN(c, nq, c.Range(1, 3))
	k.need(1, 14, 15, 1024, 2048)
	n := randNetwork(c)
	r := k.roles(5)
	level := c.Range(1, nq-1)
	img := k.encrypt("image", r[0], n.packImage(), level)
	himg := k.hoisted("image", img)
	ids := one(r[0])
	var kr []*mkckks.Ciphertext
	var hk []*mkrlwe.HoistedCiphertext
	var kids []string
	for i, v := range n.packKernels() {
		id := r[1]
		if c.Coin(1, 4) {
			id = r[1+i%4]
		}
		ids[id] = true
		kids = append(kids, id)
		ct := k.encrypt(fmt.Sprint("kernel ", i), id, v, c.Range(level, nq-1))
		kr = append(kr, ct)
		hk = append(hk, k.hoisted(fmt.Sprint("kernel ", i), ct))
	}
	c.Logf("convolution: owners %q level %d", r, level)
	for round := 0; ; round++ {
		out := cnn.Convolution(k.Eval, k.RlkSet, k.RtkSet, img, himg, kr, hk)
		k.unchanged("Convolution")
		want := repeat(n.conv())
		k.compare("Convolution", out, ids, ident, want, maxAbsF(want))
		c.Eval("conv/%s/own%d/l%d/r%d", k.Spec.Shape(), len(ids), level, round)
		if round == 1 {
			return
		}
		// another image, other kernels or both
		o, what := randNetwork(c), c.Range(1, 3)
		if what&1 != 0 {
			n.image = o.image
			img = k.replace("image", r[0], n.packImage())
			himg = k.rehoist("image", img)
		}
		if what&2 != 0 {
			n.kern = o.kern
			for i, v := range n.packKernels() {
				name := fmt.Sprint("kernel ", i)
				kr[i] = k.replace(name, kids[i], v)
				hk[i] = k.rehoist(name, kr[i])
			}
		}
	}
}

func fc1Layer(c *Case) {
	nq := c.Range(2, 4)
	k := newNN(c, nq, c.Range(1, 3))
	k.need(128, 256, 384, 512, 640, 768, 896, 1, 2, 4, 8, 16, 32, 64)
	n := randNetwork(c)
	r := k.roles(3)
	level := c.Range(1, nq-1)
	in := fillFloats(c, 1024, 1)
	vec := k.encrypt("vector", r[0], repeat(in), level)
	hvec := k.hoisted("vector", vec)
	ids := one(r[0])
	var ms []*mkckks.Ciphertext
	var hm []*mkrlwe.HoistedCiphertext
	for i, v := range n.packFC1() {
		ids[r[1]] = true
		ct := k.encrypt(fmt.Sprint("matrix ", i), r[1], v, c.Range(level, nq-1))
		ms = append(ms, ct)
		hm = append(hm, k.hoisted(fmt.Sprint("matrix ", i), ct))
	}
	ids[r[2]] = true
	bias := k.encrypt("bias", r[2], n.packB1(), c.Range(level-1, nq-1))
	c.Logf("fc1: owners %q level %d", r, level)
	for round := 0; ; round++ {
		out := cnn.FC1Layer(k.Eval, k.RlkSet, k.RtkSet, vec, hvec, ms, hm, bias)
		k.unchanged("FC1Layer")
		want := n.dense1(in)
		k.compare("FC1Layer", out, ids, func(i int) int { return i * nnGap }, want, 10+maxAbsF(want))
		c.Eval("fc1/%s/own%d/l%d/r%d", k.Spec.Shape(), len(ids), level, round)
		if round == 1 {
			return
		}
		o, what := randNetwork(c), c.Range(1, 7)
		if what&1 != 0 {
			in = fillFloats(c, 1024, 1)
			vec = k.replace("vector", r[0], repeat(in))
			hvec = k.rehoist("vector", vec)
		}
		if what&2 != 0 {
			n.fc1 = o.fc1
			for i, v := range n.packFC1() {
				name := fmt.Sprint("matrix ", i)
				ms[i] = k.replace(name, r[1], v)
				hm[i] = k.rehoist(name, ms[i])
			}
		}
		if what&4 != 0 {
			n.b1 = o.b1
			bias = k.replace("bias", r[2], n.packB1())
		}
	}
}

func fc2Layer(c *Case) {
	nq := c.Range(3, 5)
	k := newNN(c, nq, c.Range(1, 3))
	k.need(-1, -2, -4, -8, 128, 256, 512, 1024, 2048, 4096)
	n := randNetwork(c)
	r := k.roles(3)
	level := c.Range(2, nq-1)
	var in []float64
	fill := func() []float64 {
		in = fillFloats(c, nnUnits, 1)
		v := make([]float64, nnSlots)
		for i := range v {
			v[i] = c.Sym(1) // what the other slots hold does not matter
		}
		for i, x := range in {
			v[i*nnGap] = x
		}
		return v
	}
	vec := k.encrypt("vector", r[0], fill(), level)
	mat := k.encrypt("matrix", r[1], n.packFC2(), c.Range(level-1, nq-1))
	bias := k.encrypt("bias", r[2], n.packB2(), c.Range(level-2, nq-1))
	pt := k.mask()
	before := copyLimbs(pt.Value.Coeffs)
	c.Logf("fc2: owners %q level %d", r, level)
	for round := 0; ; round++ {
		out := cnn.FC2Layer(k.Eval, k.RlkSet, k.RtkSet, vec, mat, bias, pt)
		k.unchanged("FC2Layer")
		if d := diffLimbs(before, pt.Value.Coeffs); d != "" {
			c.Fatal("input-changed", "FC2Layer changed its mask: %s", d)
		}
		want := n.dense2(in)
		ids := setOf(r)
		k.compare("FC2Layer", out, ids, ident, want, 10+maxAbsF(want))
		c.Eval("fc2/%s/own%d/l%d/r%d", k.Spec.Shape(), len(ids), level, round)
		if round == 2 {
			return
		}
		o, what := randNetwork(c), c.Range(1, 7)
		if what&1 != 0 {
			vec = k.replace("vector", r[0], fill())
		}
		if what&2 != 0 {
			n.fc2 = o.fc2
			mat = k.replace("matrix", r[1], n.packFC2())
		}
		if what&4 != 0 {
			n.b2 = o.b2
			bias = k.replace("bias", r[2], n.packB2())
		}
	}
}

func flat(k [][4][4]float64) (o [][]float64) {
	for i := range k {
		for j := range k[i] {
			o = append(o, k[i][j][:])
		}
	}
	return
}

// shrink scales weights down until out is at most max.
func shrink(max float64, out func() []float64, w ...[]float64) {
	if m := maxAbsF(out()); m > max {
		for _, v := range w {
			for i := range v {
				v[i] *= max / m
			}
		}
	}
}

func wholeNetwork(c *Case) {
	k := newNN(c, 7, 2)
	k.need(1, 14, 15, 1024, 2048, 128, 256, 384, 512, 640, 768, 896, 2, 4, 8, 16, 32, 64, -1, -2, -4, -8, 4096)
	n := randNetwork(c)
	data, model := k.IDs[0], k.IDs[1]
	// keep the values of every layer within the modulus
	shrink(2, func() []float64 { return n.conv() }, flat(n.kern[:])...)
	shrink(2, func() []float64 { return n.dense1(square(n.conv())) }, append(append([][]float64{}, n.fc1...), n.b1)...)
	shrink(4, func() []float64 { return n.dense2(square(n.dense1(square(n.conv())))) }, append(append([][]float64{}, n.fc2...), n.b2)...)
	both := setOf(k.IDs)
	img := k.encrypt("image", data, n.packImage(), 6)
	himg := k.hoisted("image", img)
	var kr, ms []*mkckks.Ciphertext
	var hk, hm []*mkrlwe.HoistedCiphertext
	for i, v := range n.packKernels() {
		ct := k.encrypt(fmt.Sprint("kernel ", i), model, v, 6)
		kr = append(kr, ct)
		hk = append(hk, k.hoisted(fmt.Sprint("kernel ", i), ct))
	}
	for i, v := range n.packFC1() {
		ct := k.encrypt(fmt.Sprint("matrix ", i), model, v, 6)
		ms = append(ms, ct)
		hm = append(hm, k.hoisted(fmt.Sprint("matrix ", i), ct))
	}
	b1 := k.encrypt("bias 1", model, n.packB1(), 6)
	fc2 := k.encrypt("matrix", model, n.packFC2(), 6)
	b2 := k.encrypt("bias 2", model, n.packB2(), 6)
	sq := func(ct *mkckks.Ciphertext) *mkckks.Ciphertext {
		h := k.Eval.HoistedForm(ct)
		return k.Eval.MulRelinHoistedNew(ct, ct, h, h, k.RlkSet)
	}
	v1 := n.conv()
	o1 := cnn.Convolution(k.Eval, k.RlkSet, k.RtkSet, img, himg, kr, hk)
	k.unchanged("Convolution")
	k.compare("Convolution", o1, both, ident, repeat(v1), 10+maxAbsF(v1))
	s1 := sq(o1)
	v2 := n.dense1(square(v1))
	o2 := cnn.FC1Layer(k.Eval, k.RlkSet, k.RtkSet, s1, k.Eval.HoistedForm(s1), ms, hm, b1)
	k.unchanged("FC1Layer")
	k.compare("FC1 of the network", o2, both, func(i int) int { return i * nnGap }, v2, 100+10*maxAbsF(v1)*maxAbsF(v1))
	s2 := sq(o2)
	v3 := n.dense2(square(v2))
	o3 := cnn.FC2Layer(k.Eval, k.RlkSet, k.RtkSet, s2, fc2, b2, k.mask())
	k.unchanged("FC2Layer")
	k.compare("output of the network", o3, both, ident, v3, 100+100*maxAbsF(v2)*maxAbsF(v2))
	c.Eval("network/%s", k.Spec.Shape())
	for i := 0; i < 3; i++ {
		c.Eval("")
	}
}

func init() {
	Register(&Prop{ID: "C22", Quick: 22, Thorough: 440, MinEvals: 16, Run: runC22, CPUBudget: 300,
		Rule:        "one evaluation = one layer (or the network) run on encrypted data and compared with the plaintext layer on every slot its documented packing defines; distinct = (layer, parameters, owners, level)",
		Assumptions: []string{"the packing, kernel size, stride and rotation indices of the package's own example; ring degree 2^14"}})
}
