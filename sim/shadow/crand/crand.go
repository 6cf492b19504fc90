// Package crand is the simulated crypto/rand.
package crand

import (
	crand "crypto/rand"
	"errors"
	"io"
	"math/big"
	"runtime"
	"strings"

	"github.com/donnie4w/gofer/verifsim/sim"
)

type reader struct{}

// maybeByte: the crypto packages deliberately read (or do not read) one byte at
// the whim of a real coin toss; that read must not move the simulation.
func maybeByte() bool {
	var pc [6]uintptr
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc[:])])
	for {
		f, more := fr.Next()
		if strings.HasSuffix(f.Function, "MaybeReadByte") {
			return true
		}
		if !more {
			return false
		}
	}
}

func (reader) Read(b []byte) (int, error) {
	if len(b) == 1 && maybeByte() {
		return 1, nil
	}
	sim.Prim(sim.KIO)
	if sim.S != nil {
		if p, ok := sim.S.Data["entropy-fail"].(float64); ok && sim.Choose("entropy-fail", 2, p) == 1 {
			return 0, errors.New("entropy source unavailable")
		}
	}
	fill(b)
	return len(b), nil
}

func fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := sim.Rand64("crand")
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	fill(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}
