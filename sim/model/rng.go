package model

// Mix is a splitmix64 step.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// HashStr folds s into h.
func HashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return Mix(h)
}

// Rng is the source of all choices: a pure function of its seed.
type Rng struct{ S uint64 }

func NewRng(seed ...uint64) *Rng {
	h := uint64(0x5eed)
	for _, s := range seed {
		h = Mix(h ^ s)
	}
	return &Rng{h}
}
func (r *Rng) Next() uint64 { r.S += 0x9e3779b97f4a7c15; return Mix(r.S) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// P is true with the given percentage.
func (r *Rng) P(percent int) bool     { return r.N(100) < percent }
func (r *Rng) Pick(s []string) string { return s[r.N(len(s))] }
func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
