package core

// Rand is a small seeded generator (splitmix64).
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 1} }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range is a number in lo..hi.
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rand) Chance(pct int) bool  { return r.Intn(100) < pct }
func Pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Weighted picks an index with the given weights.
func (r *Rand) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

// Phases builds phases with gen for each call: concurrent ones have 2..maxTh threads.
func Phases(r *Rand, nPh, maxTh, maxOps int, ticks func() int, gen func() Op) []Phase {
	var ps []Phase
	for i := 0; i < nPh; i++ {
		p := Phase{}
		for j, n := 0, r.Range(1, maxTh); j < n; j++ {
			var th []Op
			for k, m := 0, r.Range(1, maxOps); k < m; k++ {
				th = append(th, gen())
			}
			p.Threads = append(p.Threads, th)
		}
		if ticks != nil {
			p.Ticks = ticks()
		}
		ps = append(ps, p)
	}
	return ps
}
