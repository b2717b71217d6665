package verifsim

// A private generator per purpose, so that removing an operation from a plan
// disturbs as little as possible of the rest.

type Rng struct{ s uint64 }

func mix64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func NewRng(seed uint64, name string) *Rng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return &Rng{s: mix64(seed*0x9e3779b97f4a7c15 ^ mix64(h))}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a,b].
func (r *Rng) In(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.N(b-a+1)
}

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// PM is true with probability pm/1000.
func (r *Rng) PM(pm int) bool { return r.N(1000) < pm }

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if i%8 == 0 {
			x := r.U64()
			for k := i; k < n && k < i+8; k++ {
				b[k] = byte(x >> (8 * uint(k-i)))
			}
		}
	}
	return b
}

func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
