package main

// Rng is a small deterministic generator (splitmix64). Every random choice of a
// case comes from one of these, seeded by (VERIF_SEED, property, case index).
type Rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *Rng {
	var s uint64 = 0x9e3779b97f4a7c15
	for _, p := range parts {
		s = mix(s ^ mix(p+0x9e3779b97f4a7c15))
	}
	return &Rng{s: s}
}

func hashString(s string) uint64 {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Between returns a number in [lo,hi].
func (r *Rng) Between(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pct percent.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Fork() *Rng { return &Rng{s: mix(r.U64() ^ 0xa5a5a5a5deadbeef)} }

func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

// Size draws a size with a heavy tail: mostly small, sometimes up to max.
func (r *Rng) Size(small, max int) int {
	switch k := r.N(100); {
	case k < 80:
		return r.Between(0, small)
	case k < 96:
		return r.Between(0, (small+max)/2)
	default:
		return r.Between(small, max)
	}
}

func shuffle[T any](r *Rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
