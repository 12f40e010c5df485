package props

import (
	"sort"

	"mk-lattigo/mkrlwe"

	. "verif/harness/core"
)

// NewIDs builds an IDSet.
func NewIDs(ids ...string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, i := range ids {
		s.Add(i)
	}
	return s
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func kswMul(k *CKKS, a, b, out *mkrlwe.Ciphertext) {
	if k.Ksw == nil {
		k.Ksw = mkrlwe.NewKeySwitcher(k.P.Parameters)
	}
	k.Ksw.MulAndRelin(a, b, k.RlkSet, out)
}

// rotSetWithout copies a rotation key set without one of the keys a rotation
// of a ciphertext of the given parties by idx needs. nil if it needs none.
func rotSetWithout(c *Case, params mkrlwe.Parameters, set *mkrlwe.RotationKeySet, ids map[string]bool, idx int) (*mkrlwe.RotationKeySet, string, int) {
	h := params.N() / 2
	idx = ((idx % h) + h) % h
	if idx == 0 || len(ids) == 0 {
		return nil, "", 0
	}
	var need []int
	if _, in := params.CRS[idx]; in {
		need = []int{idx}
	} else {
		for b := 1; b < h; b *= 2 {
			if idx&b != 0 {
				need = append(need, b)
			}
		}
	}
	owner, r := Pick(c.Rng, keys(ids)...), Pick(c.Rng, need...)
	out := mkrlwe.NewRotationKeySet()
	for id, m := range set.Value {
		for i, k := range m {
			if id != owner || i != uint(r) {
				out.AddRotationKey(k)
			}
		}
	}
	return out, owner, r
}

// conjSetWithout copies a conjugation key set without the key of one of the parties.
func conjSetWithout(c *Case, set *mkrlwe.ConjugationKeySet, ids map[string]bool) (*mkrlwe.ConjugationKeySet, string) {
	if len(ids) == 0 {
		return nil, ""
	}
	owner := Pick(c.Rng, keys(ids)...)
	out := mkrlwe.NewConjugationKeySet()
	for id, k := range set.Value {
		if id != owner {
			out.AddConjugationKey(k)
		}
	}
	return out, owner
}
