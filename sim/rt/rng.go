package simrt

// RNG is splitmix64: stable across Go versions.
type RNG struct{ x uint64 }

// NewRNG returns a generator.
func NewRNG(seed uint64) *RNG { r := &RNG{seed}; r.U64(); return r }

// U64 returns 64 random bits.
func (r *RNG) U64() uint64 {
	r.x += 0x9E3779B97F4A7C15
	z := r.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Float returns a value in [0,1).
func (r *RNG) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Bool is true with probability p.
func (r *RNG) Bool(p float64) bool { return r.Float() < p }

// Pick returns one of the given ints.
func (r *RNG) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

// PickS returns one of the given strings.
func (r *RNG) PickS(xs ...string) string { return xs[r.Intn(len(xs))] }

// Range returns a value in [a,b].
func (r *RNG) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Perm is a random permutation.
func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
