// Package pbt is a small property-based testing engine: a case is a pure
// function of a recorded choice sequence, failures are shrunk by editing that
// sequence, and a sharded driver runs cases in worker processes.
package pbt

import (
	"fmt"
	"hash/fnv"
	"io"
	"math/bits"
)

// rng is splitmix64.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) below(n uint64) uint64 {
	hi, _ := bits.Mul64(r.next(), n)
	return hi
}

// Source hands out choices, either fresh ones or those of a replayed list.
type Source struct {
	rng     rng
	replay  []uint64
	fixed   bool // replaying: past the end every choice is 0
	pos     int
	Choices []uint64
	stream  io.Writer
}

func newRandom(seed uint64) *Source { return &Source{rng: rng{seed}} }
func newReplay(c []uint64) *Source  { return &Source{replay: c, fixed: true} }
func mix(seed, i uint64, p string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(p))
	r := rng{h.Sum64() ^ (seed * 0x9e3779b97f4a7c15) ^ (i * 0xd1342543de82ef95)}
	r.next()
	return r.next()
}

// Below draws an integer in [0,n). 0 is the simplest choice.
func (s *Source) Below(n int) int {
	if n <= 1 {
		// still recorded so that positions stay aligned while shrinking
		n = 1
	}
	var v uint64
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			if v >= uint64(n) {
				v = uint64(n - 1)
			}
		}
	} else {
		v = s.rng.below(uint64(n))
	}
	s.pos++
	s.Choices = append(s.Choices, v)
	if s.stream != nil {
		fmt.Fprintf(s.stream, "%d ", v)
	}
	return int(v)
}

// Int draws from [lo,hi]; lo is simplest.
func (s *Source) Int(lo, hi int) int { return lo + s.Below(hi-lo+1) }

// Tail draws from lo to hi, and now and then from lo to far.
func (s *Source) Tail(lo, hi, far int) int {
	if s.Chance(1, 25) {
		hi = far
	}
	return s.Int(lo, hi)
}

// Bool draws a coin; false is simplest.
func (s *Source) Bool() bool { return s.Below(2) == 1 }

// Chance is true with probability num/den; false is simplest.
func (s *Source) Chance(num, den int) bool { return s.Below(den) >= den-num }

// Perm draws a permutation of 0..n-1 (identity is simplest).
func (s *Source) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.Below(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Dyadic draws a multiple of 1/den with absolute value at most max; the
// simplest values are small.
func (s *Source) Dyadic(max, den int) float64 {
	k := s.Below(2*max*den + 1)
	v := float64((k + 1) / 2)
	if k%2 == 0 {
		v = -v
	}
	if v == 0 {
		v = 0 // no negative zero
	}
	return v / float64(den)
}
