// Package core holds the machinery shared by all monitors: deterministic
// randomness, parameter generation, exact reference arithmetic, contexts for
// the schemes under test, and the supervisor / worker that runs the cases.
package core

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
)

// Rng is the deterministic source of every random choice of a case.
type Rng struct{ *rand.Rand }

func seedBytes(parts ...interface{}) [32]byte {
	return sha256.Sum256([]byte(fmt.Sprint(parts...)))
}

// NewRng derives a generator from the given parts.
func NewRng(parts ...interface{}) *Rng {
	s := seedBytes(parts...)
	return &Rng{rand.New(rand.NewChaCha8(s))}
}

// Intn returns a value in [0,n).
func (r *Rng) Intn(n int) int { return r.IntN(n) }

// Range returns a value in [lo,hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

// Coin is true with probability num/den.
func (r *Rng) Coin(num, den int) bool { return r.IntN(den) < num }

// Sym returns a uniform float in [-b,b].
func (r *Rng) Sym(b float64) float64 { return (2*r.Float64() - 1) * b }

// LogUniform returns a float whose logarithm is uniform in [lo,hi].
func (r *Rng) LogUniform(lo, hi float64) float64 {
	return math.Exp(math.Log(lo) + r.Float64()*(math.Log(hi)-math.Log(lo)))
}

// Pick returns one of the values.
func Pick[T any](r *Rng, v ...T) T { return v[r.Intn(len(v))] }

// detReader replaces crypto/rand.Reader so that the library's own sampling
// is reproducible from the case seed. It is safe for concurrent use.
type detReader struct {
	mu sync.Mutex
	s  *rand.ChaCha8
}

func (d *detReader) Read(p []byte) (int, error) {
	if atomic.LoadInt32(&useStreams) != 0 {
		if v, in := streams.Load(goid()); in {
			// the stream of one goroutine is used by that goroutine only
			fill(v.(*rand.ChaCha8), p)
			return len(p), nil
		}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	fill(d.s, p)
	return len(p), nil
}

func fill(s *rand.ChaCha8, p []byte) {
	var b [8]byte
	for i := 0; i < len(p); i += 8 {
		binary.LittleEndian.PutUint64(b[:], s.Uint64())
		copy(p[i:], b[:])
	}
}

var (
	streams    sync.Map // goroutine id -> its own stream
	useStreams int32
)

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	return string(f[1])
}

// WithStream runs f with library randomness that is a function of the parts
// only, whatever other goroutines do.
func WithStream(f func(), parts ...interface{}) {
	id := goid()
	streams.Store(id, rand.NewChaCha8(seedBytes(append([]interface{}{"stream"}, parts...)...)))
	atomic.AddInt32(&useStreams, 1)
	defer func() {
		atomic.AddInt32(&useStreams, -1)
		streams.Delete(id)
	}()
	f()
}

var globalReader = &detReader{s: rand.NewChaCha8([32]byte{})}

// SeedLibrary makes the library's crypto/rand reads a function of the parts.
func SeedLibrary(parts ...interface{}) {
	globalReader.mu.Lock()
	globalReader.s = rand.NewChaCha8(seedBytes(append([]interface{}{"lib"}, parts...)...))
	globalReader.mu.Unlock()
	crand.Reader = globalReader
}
