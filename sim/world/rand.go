// Package world holds the simulated deployments: plans, their generators, the
// interpreter that runs a plan under the simulator, and the oracles.
package world

// Rand is a splitmix64 generator: the one source of every random choice.
type Rand struct {
	s     uint64
	last  *Fields // the RFC 5424 message drawn before, for related ones
	last3 *F3164
	many  bool // many small messages instead of a few of any size
}

// NewRand derives an independent stream from a seed and a label.
func NewRand(seed uint64, label string) *Rand {
	h := seed ^ 0x9e3779b97f4a7c15
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 0x100000001b3
	}
	r := &Rand{s: h}
	r.U64()
	r.U64()
	return r
}

// U64 is the next 64 bits.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0, n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in [lo, hi].
func (r *Rand) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with pct percent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Pick picks one of the strings.
func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }

// PickI picks one of the ints.
func (r *Rand) PickI(s ...int) int { return s[r.N(len(s))] }

// W picks an index by weight.
func (r *Rand) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Len draws a length in [1, max] with weight on small values and on max.
func (r *Rand) Len(max int) int {
	if v, ok := r.hint(10, 1, max); ok {
		return v
	}
	switch r.W(60, 20, 10, 5, 5) {
	case 0:
		if max < 8 {
			return r.In(1, max)
		}
		return r.In(1, 8)
	case 1:
		return r.In(1, max)
	case 2:
		return max
	case 3:
		if max > 1 {
			return max - 1
		}
		return 1
	default:
		return 1
	}
}
