package core

import (
	"fmt"
	"math/big"
	"reflect"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ring"
)

// Slabs moves the coefficient arrays of polynomials into larger arrays with
// guard words on both sides, filled with a pattern that can be changed.
type Slabs struct {
	Pattern uint64
	slabs   []slab
	seen    map[*ring.Poly]bool
	visited map[visit]bool
	where   string
}

type slab struct {
	mem   []uint64
	n     int
	name  string
	polly *ring.Poly
	limb  int
}

type visit struct {
	p uintptr
	t reflect.Type
}

const guard = 24

// NewSlabs makes an empty collection.
func NewSlabs(pattern uint64) *Slabs {
	return &Slabs{Pattern: pattern, seen: map[*ring.Poly]bool{}, visited: map[visit]bool{}}
}

func (s *Slabs) word(i int) uint64 { return (s.Pattern + uint64(i)*0x9E3779B97F4A7C15) | 1<<63 }

// Wrap moves one polynomial.
func (s *Slabs) Wrap(name string, p *ring.Poly) {
	if p == nil || s.seen[p] {
		return
	}
	s.seen[p] = true
	for i, c := range p.Coeffs {
		n := len(c)
		mem := make([]uint64, n+2*guard)
		copy(mem[guard:], c)
		s.slabs = append(s.slabs, slab{mem, n, name, p, i})
		// half of the arrays have a capacity beyond their length, as slices of a
		// larger allocation do: what lies there is not theirs
		if (len(s.slabs)+int(s.Pattern>>7))%2 == 0 {
			p.Coeffs[i] = mem[guard : guard+n]
		} else {
			p.Coeffs[i] = mem[guard : guard+n : guard+n]
		}
	}
	s.paintFrom(len(s.slabs) - len(p.Coeffs))
}

func (s *Slabs) paintFrom(k int) {
	for ; k < len(s.slabs); k++ {
		b := s.slabs[k]
		for i := 0; i < guard; i++ {
			b.mem[i] = s.word(i)
			b.mem[guard+b.n+i] = s.word(guard + i)
		}
	}
}

// Repaint changes the pattern of all the guards.
func (s *Slabs) Repaint(pattern uint64) {
	s.Pattern = pattern
	s.paintFrom(0)
}

// Count is the number of guarded arrays.
func (s *Slabs) Count() int { return len(s.slabs) }

// Check looks for overwritten guards.
func (s *Slabs) Check() string {
	for _, b := range s.slabs {
		for i := 0; i < guard; i++ {
			if b.mem[i] != s.word(i) {
				return fmt.Sprintf("word %d before limb %d of %s (N=%d) was overwritten", guard-i, b.limb, b.name, b.n)
			}
			if b.mem[guard+b.n+i] != s.word(guard+i) {
				return fmt.Sprintf("word %d after limb %d of %s (N=%d) was overwritten", i, b.limb, b.name, b.n)
			}
		}
	}
	return ""
}

var (
	polyType = reflect.TypeOf(&ring.Poly{})
	ringType = reflect.TypeOf(&ring.Ring{})
	bigType  = reflect.TypeOf(&big.Int{})
)

// Walk wraps every polynomial reachable from v (a pointer), exported or not.
func (s *Slabs) Walk(name string, v interface{}) {
	s.walk(name, reflect.ValueOf(v), 0)
}

func (s *Slabs) walk(name string, v reflect.Value, depth int) {
	if !v.IsValid() || depth > 24 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || v.Type() == ringType || v.Type() == bigType {
			return
		}
		if v.Type() == polyType {
			s.Wrap(name, (*ring.Poly)(v.UnsafePointer()))
			return
		}
		k := visit{v.Pointer(), v.Type()}
		if s.visited[k] {
			return
		}
		s.visited[k] = true
		s.walk(name, v.Elem(), depth+1)
	case reflect.Interface:
		s.walk(name, v.Elem(), depth+1)
	case reflect.Struct:
		if !v.CanAddr() {
			n := reflect.New(v.Type()).Elem()
			n.Set(v)
			v = n
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			s.walk(name+"."+v.Type().Field(i).Name, f, depth+1)
		}
	case reflect.Slice:
		if !interesting(v.Type().Elem()) || v.IsNil() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(name, v.Index(i), depth+1)
		}
	case reflect.Array:
		if !interesting(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(name, v.Index(i), depth+1)
		}
	case reflect.Map:
		if !interesting(v.Type().Elem()) {
			return
		}
		it := v.MapRange()
		for it.Next() {
			s.walk(fmt.Sprintf("%s[%v]", name, it.Key()), it.Value(), depth+1)
		}
	}
}

func interesting(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Map:
		return true
	case reflect.Slice, reflect.Array:
		return interesting(t.Elem())
	}
	return false
}
