package main

type rng struct{ s uint64 }

func newRng(seed, stream uint64) *rng {
	r := &rng{seed*0x9e3779b97f4a7c15 ^ stream*0xd1342543de82ef95}
	r.u()
	r.u()
	return r
}

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u() % uint64(n))
}

func (r *rng) rng(lo, hi int) int { return lo + r.n(hi-lo+1) }

func (r *rng) p(per1000 int) bool { return r.n(1000) < per1000 }

func (r *rng) pick(xs ...int) int { return xs[r.n(len(xs))] }

func (r *rng) picks(xs ...string) string { return xs[r.n(len(xs))] }

func (r *rng) fork() *rng { return &rng{r.u()} }

// size draws a payload length with weight on the interesting ones.
func (r *rng) size(max int) int {
	switch r.n(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3, 4:
		return r.n(min(32, max) + 1)
	case 5, 6:
		return r.n(min(300, max) + 1)
	case 7:
		return max
	case 8:
		return max - r.n(min(8, max)+1)
	default:
		return r.n(max + 1)
	}
}

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.u()
		for k := 0; k < 8 && i+k < n; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	return b
}
