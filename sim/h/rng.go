package h

// Rng is splitmix64; every random choice of the harness comes from one.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng { return &Rng{Mix(parts...)} }

//go:norace
func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix hashes its arguments.
//
//go:norace
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h = mix64(h ^ p)
	}
	return h
}

func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
	}
	return mix64(h)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) Int63n(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// P is true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.Intn(b) < a }

func Pick[T any](r *Rng, l ...T) T { return l[r.Intn(len(l))] }
