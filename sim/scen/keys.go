package scen

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// The maps are used with keys of several types; programs and histories name
// keys by small numbers.

// keyI: integers that agree in their low or high halves, negative and extreme ones.
func keyI(kt, k int64) int64 {
	switch kt % 4 {
	case 1:
		return k<<32 | 7
	case 2:
		return math.MinInt64 + k
	case 3:
		return 3 - k*256
	}
	return k
}

var oddStr = []string{"", "\x00", "a", "a\x00", "A", "ä", "a ", " a", "0", "00", strings.Repeat("long", 80), strings.Repeat("long", 80) + "x"}

// keyS: strings that resemble each other.
func keyS(k int64) string {
	if k < int64(len(oddStr)) {
		return oddStr[k]
	}
	return fmt.Sprint("key", k)
}

type keyStruct struct {
	A int32
	B string
}

// keyA: keys of different types that print alike.
func keyA(k int64) any {
	n := k / 6
	switch k % 6 {
	case 0:
		return n
	case 1:
		return fmt.Sprint(n)
	case 2:
		return int32(n)
	case 3:
		return float64(n)
	case 4:
		return [1]int64{n}
	}
	return keyStruct{int32(n), "b"}
}

// keyF: floats in ascending order, fractions and negative ones among them.
func keyF(k int64) float64 { return float64(k)*0.25 - 3.5 }

// sortedS: strings in ascending order.
var sortedS = func() []string {
	var l []string
	for k := int64(0); k < 420; k++ {
		l = append(l, keyS(k))
	}
	sort.Strings(l)
	return l
}()

// keyed translates between a map's keys and their numbers.
type keyed[K comparable] struct {
	to   func(int64) K
	back map[K]int64
}

func mkKeyed[K comparable](n int64, to func(int64) K) keyed[K] {
	x := keyed[K]{to, map[K]int64{}}
	for k := int64(0); k < n; k++ {
		x.back[to(k)] = k
	}
	return x
}

// of returns the number of a key the map reported; an unknown key has a number no program uses.
func (x keyed[K]) of(k K) int64 {
	if n, ok := x.back[k]; ok {
		return n
	}
	return -77
}
