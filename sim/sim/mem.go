package sim

import (
	"fmt"
	"reflect"
	"sort"
)

// Ld is a load of shared memory: a scheduling point followed by the load.
func Ld[T any](site int, p *T) T {
	if p != nil {
		Y(site)
	}
	return *p
}

// Ext is the receiver of a call into code that is not translated.
func Ext[T any](site int, v T) T {
	Y(site)
	return v
}

// St is a store to shared memory: the value is computed, then a scheduling
// point, then the store.
func St[T any](site int, p *T) func(T) {
	return func(v T) {
		_ = *p
		Y(site)
		*p = v
	}
}

func MapR[M ~map[K]V, K comparable, V any](site int, m M) M {
	if S != nil && m != nil {
		Y(site)
		mapAccess(mapPtr[M, K, V](m), m, site, false)
	}
	return m
}

func MapW[M ~map[K]V, K comparable, V any](site int, m M) M {
	if S != nil && m != nil {
		Y(site)
		mapAccess(mapPtr[M, K, V](m), m, site, true)
	}
	return m
}

// MapKeys lists the keys of m in a seed-determined order.
func MapKeys[M ~map[K]V, K comparable, V any](site int, m M) []K {
	if len(m) == 0 {
		if m != nil && S != nil {
			mapAccess(mapPtr[M, K, V](m), m, site, false)
		}
		return nil
	}
	if S != nil {
		mapAccess(mapPtr[M, K, V](m), m, site, false)
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	SortKeys(ks)
	for i := len(ks) - 1; i > 0; i-- {
		j := Pick("maporder", i+1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

// SortKeys brings keys of any comparable type into a reproducible order.
func SortKeys[K any](ks []K) {
	sort.SliceStable(ks, func(i, j int) bool { return lessAny(reflect.ValueOf(&ks[i]).Elem(), reflect.ValueOf(&ks[j]).Elem()) })
}

func lessAny(a, b reflect.Value) bool {
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	if a.Kind() != b.Kind() {
		return a.Kind() < b.Kind()
	}
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Func, reflect.Interface, reflect.Invalid:
		return false
	}
	return fmt.Sprintf("%v", a.Interface()) < fmt.Sprintf("%v", b.Interface())
}
