package main

// Rng is a small deterministic generator (splitmix64); every case derives its
// own from the seed, so cases do not depend on scheduling.
type Rng struct{ s uint64 }

func newRng(seed uint64, parts ...any) *Rng {
	h := seed*0x9E3779B97F4A7C15 + 0x1234567
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			for i := 0; i < len(v); i++ {
				h = (h ^ uint64(v[i])) * 0x100000001b3
			}
		case int:
			h = (h ^ uint64(v)) * 0x9E3779B97F4A7C15
			h ^= h >> 29
		}
	}
	r := &Rng{h}
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) Chance(p float64) bool { return r.Float() < p }

func pick[T any](r *Rng, l []T) T { return l[r.Intn(len(l))] }

// weighted returns an index with probability proportional to its weight.
func (r *Rng) weighted(w []int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	k := r.Intn(sum)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
