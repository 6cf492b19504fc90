// Package rand shadows the top-level (globally seeded) functions of math/rand.
package rand

import (
	"math/rand"

	"github.com/donnie4w/gofer/verifsim/sim"
)

type source struct{}

func (source) Int63() int64    { return int64(sim.Rand64("mrand") >> 1) }
func (source) Uint64() uint64  { return sim.Rand64("mrand") }
func (source) Seed(seed int64) {}

func r() *rand.Rand { return rand.New(source{}) }

func Seed(int64)                         {}
func Int() int                           { return r().Int() }
func Intn(n int) int                     { return r().Intn(n) }
func Int31() int32                       { return r().Int31() }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Int63() int64                       { return r().Int63() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint64() uint64                     { return r().Uint64() }
func Float64() float64                   { return r().Float64() }
func Float32() float32                   { return r().Float32() }
func NormFloat64() float64               { return r().NormFloat64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
func Read(b []byte) (int, error)         { return r().Read(b) }
