// Package maps shadows the order-dependent functions of maps.
package maps

import (
	"iter"

	"github.com/donnie4w/gofer/verifsim/sim"
)

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range sim.MapKeys(0, m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range sim.MapKeys(0, m) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range sim.MapKeys(0, m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}
