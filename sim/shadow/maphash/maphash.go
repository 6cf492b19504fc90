// Package maphash is a seeded, reproducible hash/maphash.
package maphash

import (
	"fmt"

	"github.com/donnie4w/gofer/verifsim/sim"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed {
	for {
		if v := sim.Rand64("maphash"); v != 0 {
			return Seed{v}
		}
	}
}

func mix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func Bytes(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	// a hash function promises no spread: "hash-weak" leaves only that many values
	if w := weak(); w > 0 {
		h := uint64(len(b))
		for _, c := range b {
			h = h*31 + uint64(c)
		}
		return mix(h^seed.s) % uint64(w)
	}
	h := seed.s ^ 14695981039346656037
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(h ^ uint64(len(b)))
}

func String(seed Seed, s string) uint64 { return Bytes(seed, []byte(s)) }

func Comparable[T comparable](seed Seed, v T) uint64 {
	return Bytes(seed, []byte(fmt.Sprintf("%T%v", v, v)))
}

type Hash struct {
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error)       { h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteString(s string) (int, error) { h.b = append(h.b, s...); return len(s), nil }
func (h *Hash) WriteByte(b byte) error            { h.b = append(h.b, b); return nil }
func (h *Hash) Seed() Seed                        { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)                    { h.seed = s; h.b = nil }
func (h *Hash) Reset()                            { h.b = nil }
func (h *Hash) Sum64() uint64                     { h.init(); return Bytes(h.seed, h.b) }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
}

func weak() int64 {
	if sim.S == nil {
		return 0
	}
	w, _ := sim.S.Data["hash-weak"].(int64)
	return w
}
