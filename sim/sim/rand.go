package sim

import "math"

// Rand is splitmix64/xorshift: small, seedable, independent of the Go version.
type Rand struct{ s uint64 }

func NewRand(seed uint64) Rand { return Rand{mix64(seed + 0x632BE59BD9B4E019)} }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func Mix(a, b uint64) uint64 { return mix64(a*0x9E3779B97F4A7C15 + mix64(b+0xD1B54A32D192ED03)) }

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	return mix64(r.s)
}

func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 11) % uint64(n))
}

func (r *Rand) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Geom returns a geometric waiting time (>=1) with success probability p.
func (r *Rand) Geom(p float64) int64 {
	if p >= 1 {
		return 1
	}
	if p <= 0 {
		return math.MaxInt32
	}
	u := r.Float()
	v := math.Log(1-u) / math.Log(1-p)
	if v > 1e9 {
		return 1e9
	}
	return 1 + int64(v)
}
