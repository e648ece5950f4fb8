package main

import "math"

// Rng is a splitmix64 generator: the same stream on every Go version.
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func hashBytes(s []byte) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func hashF(h uint64, vs []float64) uint64 {
	for _, v := range vs {
		h = mix(h ^ math.Float64bits(v) + 0x9e3779b97f4a7c15)
	}
	return h
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix(s ^ p + 0x9e3779b97f4a7c15)
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a value in [0,n)
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b]
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) P(p float64) bool { return r.F() < p }

func (r *Rng) Bool() bool { return r.U64()&1 == 1 }

func (r *Rng) Norm() float64 {
	s := 0.0
	for i := 0; i < 12; i++ {
		s += r.F()
	}
	return s - 6
}

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rng) Pick(vs ...int) int { return vs[r.N(len(vs))] }

func (r *Rng) PickS(vs ...string) string { return vs[r.N(len(vs))] }

func (r *Rng) PickF(vs ...float64) float64 { return vs[r.N(len(vs))] }

// NaN is any of the NaNs: the one of Go, the one that x86 processors compute, others
func (r *Rng) NaN() float64 {
	switch r.N(6) {
	case 0:
		return math.Float64frombits(0xFFF8000000000000)
	case 1:
		return math.Float64frombits(0x7FF0000000000001 | r.U64()&0x800FFFFFFFFFFFFF)
	case 2:
		return math.Float64frombits(0x7FF8000000000000)
	}
	return math.NaN()
}
