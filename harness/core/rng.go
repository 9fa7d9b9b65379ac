// Package core runs generated cases against the library in worker processes, watches
// them (panics, hangs, memory, races) and reports what was observed.
package core

import "math"

// Rand is a small deterministic generator (splitmix64), the same on every Go version.
type Rand struct{ s uint64 }

func NewRand(parts ...uint64) *Rand {
	r := &Rand{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p
		r.Uint64()
		r.s = r.s*0xbf58476d1ce4e5b9 + 0x94d049bb133111eb
	}
	return r
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n); 0 if n<=0.
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with the given percentage.
func (r *Rand) P(percent int) bool { return r.Intn(100) < percent }

// One is true once in n times.
func (r *Rand) One(n int) bool { return r.Intn(n) == 0 }

func (r *Rand) Str(ss ...string) string { return ss[r.Intn(len(ss))] }

func (r *Rand) Byte(s string) byte { return s[r.Intn(len(s))] }

// Size returns a small number most of the time, and at times numbers up to max, with a
// preference for the neighbourhood of powers of two and of limits found in practice.
func (r *Rand) Size(max int) int {
	var n int
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		n = r.Intn(4)
	case 4, 5, 6:
		n = r.Intn(12)
	case 7:
		n = r.Intn(40)
	case 8:
		n = (1 << uint(r.Intn(17))) + r.Range(-2, 2)
	default:
		f := math.Exp(float64(r.Intn(1000)) / 1000 * math.Log(float64(max)+1))
		n = int(f)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max - r.Intn(3)
		if n < 0 {
			n = 0
		}
	}
	return n
}

// Fork gives an independent generator.
func (r *Rand) Fork() *Rand { return NewRand(r.Uint64()) }

// Hash is FNV-1a, continued from h.
func Hash(h uint64, b []byte) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func HashStr(s string) uint64 { return Hash(0, []byte(s)) }
