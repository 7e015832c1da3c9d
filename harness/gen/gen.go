// Package gen turns sequences of choices into structured values. A sequence comes from a pseudo-random generator, or
// is replayed and altered while shrinking.
package gen

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"time"
)

// S is a source of choices.
type S struct {
	in   []uint64 // choices to be replayed
	fix  bool     // no fresh choices: zeros once in is used up
	st   uint64
	Out  []uint64
	Size int // scale of the case: 1 for quick
}

// New returns the source of case i of a property.
func New(seed int64, prop string, i int, size int) *S {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, prop, i)))
	return &S{st: binary.LittleEndian.Uint64(h[:]), Size: size}
}

// Replay returns a source that replays choices.
func Replay(choices []uint64, size int) *S { return &S{in: choices, fix: true, Size: size} }

func (s *S) rnd() uint64 {
	s.st += 0x9e3779b97f4a7c15
	z := s.st
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn draws from [0, n). Smaller values are simpler.
func (s *S) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.fix {
		if k := len(s.Out); k < len(s.in) {
			v = s.in[k]
			if v >= uint64(n) {
				v = uint64(n - 1)
			}
		}
	} else {
		v = s.rnd() % uint64(n)
	}
	s.Out = append(s.Out, v)
	return int(v)
}

// Range draws from [lo, hi].
func (s *S) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.Intn(hi-lo+1)
}

// Bool is true in p of 100 cases.
func (s *S) Bool(p int) bool { return s.Intn(100) >= 100-p }

// Seed draws a 31-bit number.
func (s *S) Seed() int { return s.Intn(1 << 31) }

// Pick draws one of the given values.
func Pick[T any](s *S, v ...T) T { return v[s.Intn(len(v))] }

// Weighted draws an index with the given weights.
func (s *S) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.Intn(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Ms draws a duration of lo to hi milliseconds.
func (s *S) Ms(lo, hi int) time.Duration { return time.Duration(s.Range(lo, hi)) * time.Millisecond }

// Perm draws a permutation.
func (s *S) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - s.Intn(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Bytes draws n bytes (a single choice, expanded).
func (s *S) Bytes(n int) []byte { return Expand(uint64(s.Seed()), n) }

// Expand expands a seed into n bytes.
func Expand(seed uint64, n int) []byte {
	b := make([]byte, n)
	r := S{st: seed ^ 0xd1b54a32d192ed03}
	i := 0
	for ; i+8 <= n; i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.rnd())
	}
	if i < n {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], r.rnd())
		copy(b[i:], t[:])
	}
	return b
}

// Rand is a deterministic generator for use during execution, seeded by the plan.
type Rand struct{ s S }

// NewRand returns a generator.
func NewRand(seed uint64) *Rand { return &Rand{S{st: seed}} }

// Intn draws from [0, n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.s.rnd() % uint64(n))
}

// Uint64 draws 64 bits.
func (r *Rand) Uint64() uint64 { return r.s.rnd() }
