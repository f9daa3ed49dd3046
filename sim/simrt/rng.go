package simrt

// RNG is a splitmix64 generator: tiny, seedable, and identical everywhere.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func Mix(a uint64, b uint64) uint64 {
	z := a + 0x9E3779B97F4A7C15*(b+1)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0, n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [lo, hi].
func (r *RNG) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability p.
func (r *RNG) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// Geo returns a geometric-like gap of the given mean, at least 1.
func (r *RNG) Geo(mean int) int64 {
	if mean <= 1 {
		return 1
	}
	// Uniform in [1, 2*mean-1]: same mean, no logarithms, no rounding differences.
	return int64(1 + r.N(2*mean-1))
}
