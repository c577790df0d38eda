package main

import "hash/fnv"

// Rand is a small deterministic generator (splitmix64), seeded per case.
type Rand struct {
	s    uint64
	last string // the word made last
}

func newRand(parts ...interface{}) *Rand {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(str(p)))
		h.Write([]byte{0})
	}
	r := &Rand{s: h.Sum64()}
	r.u64()
	return r
}

func (r *Rand) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pct/100.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

func (r *Rand) Pick(s ...string) string { return s[r.N(len(s))] }

func (r *Rand) PickInt(s ...int) int { return s[r.N(len(s))] }

func pick[T any](r *Rand, s []T) T { return s[r.N(len(s))] }

func shuffle[T any](r *Rand, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := r.N(i + 1)
		s[i], s[j] = s[j], s[i]
	}
}

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

// From returns n characters of the alphabet.
func (r *Rand) From(alphabet string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.N(len(alphabet))]
	}
	return string(b)
}

// Size favours small values and the neighbourhoods of boundaries.
func (r *Rand) Size(max int, around ...int) int {
	var n int
	switch r.N(4) {
	case 0:
		n = r.N(8)
	case 1:
		n = r.N(max + 1)
	default:
		if len(around) == 0 {
			n = 1 << uint(r.N(20))
			n += r.Range(-1, 1)
		} else {
			n = pick(r, around) + r.Range(-2, 2)
		}
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

// ids returns a source of distinct numbers in no particular order.
func (r *Rand) ids() func() int {
	seen := map[int]bool{}
	max := r.PickInt(20, 1000, 1000000, 1000000, 1<<40, 1<<62)
	neg := r.P(6)
	return func() int {
		for {
			n := r.Range(1, max)
			max++
			if neg && r.P(50) {
				n = -n
			}
			if !seen[n] {
				seen[n] = true
				return n
			}
		}
	}
}
