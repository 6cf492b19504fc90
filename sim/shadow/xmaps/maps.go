// Package xmaps shadows golang.org/x/exp/maps.
package xmaps

import "github.com/donnie4w/gofer/verifsim/sim"

func Keys[M ~map[K]V, K comparable, V any](m M) []K { return sim.MapKeys(0, m) }

func Values[M ~map[K]V, K comparable, V any](m M) []V {
	var r []V
	for _, k := range sim.MapKeys(0, m) {
		r = append(r, m[k])
	}
	return r
}
