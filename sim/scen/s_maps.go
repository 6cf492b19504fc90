package scen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/hashmap"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// regModel is one key of a concurrent map: state is the value or -1 (absent).
var regModel = Model{
	Init: int64(-1),
	Key:  func(st any) string { return fmt.Sprint(st.(int64)) },
	Step: func(st any, o *HOp) (any, bool) {
		v := st.(int64)
		pend := o.Ret == 0
		switch o.Name {
		case "put": // in key,val out prev,had
			if !pend && !(had(v) == (o.Out[1] == 1) && (v < 0 || o.Out[0] == v)) {
				return nil, false
			}
			return o.In[1], true
		case "put0": // no result
			return o.In[1], true
		case "get":
			return v, pend || had(v) == (o.Out[1] == 1) && (v < 0 || o.Out[0] == v)
		case "has":
			return v, pend || had(v) == (o.Out[0] == 1)
		case "del":
			if !pend && had(v) != (o.Out[0] == 1) {
				return nil, false
			}
			return int64(-1), true
		case "del0":
			return int64(-1), true
		}
		panic(o.Name)
	},
}

func had(v int64) bool { return v >= 0 }
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func byKey(h *Hist) map[int64][]*HOp {
	m := map[int64][]*HOp{}
	for _, o := range h.Ops {
		if len(o.In) > 0 {
			m[o.In[0]] = append(m[o.In[0]], o)
		}
	}
	return m
}

func sortedI(m map[int64][]*HOp) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

type mapLike interface { // int64 keys and values
	Put(k, v int64) (int64, bool)
	Get(k int64) (int64, bool)
	Has(k int64) bool
	Del(k int64) bool
	Range(f func(k, v int64) bool)
}

// toAny and ofAny store values in maps of interface type: 0 is nil, some are
// slices, which cannot be compared, some pointers.
func toAny(v int64) any {
	switch {
	case v == 0:
		return nil
	case v%4 == 3:
		return []int64{v}
	case v%8 == 2:
		return &v
	}
	return v
}

func ofAny(v any) int64 {
	switch v := v.(type) {
	case nil:
		return 0
	case []int64:
		return v[0]
	case *int64:
		return *v
	}
	return v.(int64)
}

// val draws the n-th value: mostly distinct ones, sometimes nil.
func (r *R) val(n int) int64 {
	if r.N(9) == 0 {
		return 0
	}
	return int64(100 + n)
}

type cmap[K, V any] interface {
	Put(K, V) (V, bool)
	Get(K) (V, bool)
	Has(K) bool
	Del(K) bool
	Range(func(K, V) bool)
}

// anyMap has keys of type K and values that may be nil.
type anyMap[K comparable] struct {
	m cmap[K, any]
	x keyed[K]
}

func (a anyMap[K]) Put(k, v int64) (int64, bool) {
	x, b := a.m.Put(a.x.to(k), toAny(v))
	return ofAny(x), b
}
func (a anyMap[K]) Get(k int64) (int64, bool) { x, b := a.m.Get(a.x.to(k)); return ofAny(x), b }
func (a anyMap[K]) Has(k int64) bool          { return a.m.Has(a.x.to(k)) }
func (a anyMap[K]) Del(k int64) bool          { return a.m.Del(a.x.to(k)) }
func (a anyMap[K]) Range(f func(k, v int64) bool) {
	a.m.Range(func(k K, v any) bool { return f(a.x.of(k), ofAny(v)) })
}

type intMap[K comparable] struct {
	cmap[K, int64]
	x keyed[K]
}

func (a intMap[K]) Put(k, v int64) (int64, bool) { return a.cmap.Put(a.x.to(k), v) }
func (a intMap[K]) Get(k int64) (int64, bool)    { return a.cmap.Get(a.x.to(k)) }
func (a intMap[K]) Has(k int64) bool             { return a.cmap.Has(a.x.to(k)) }
func (a intMap[K]) Del(k int64) bool             { return a.cmap.Del(a.x.to(k)) }
func (a intMap[K]) Range(f func(k, v int64) bool) {
	a.cmap.Range(func(k K, v int64) bool { return f(a.x.of(k), v) })
}

func mkMap[K comparable](p *Prog, to func(int64) K) (m mapLike, ml interface{ Len() int64 }) {
	x := mkKeyed(p.G("keys"), to)
	switch {
	case p.G("lenmap") == 1 && p.G("any") == 1:
		c := hashmap.NewMapL[K, any]()
		return anyMap[K]{c, x}, c
	case p.G("lenmap") == 1:
		c := hashmap.NewMapL[K, int64]()
		return intMap[K]{c, x}, c
	case p.G("any") == 1:
		return anyMap[K]{hashmap.NewMap[K, any](), x}, nil
	}
	return intMap[K]{hashmap.NewMap[K, int64](), x}, nil
}

// lmap is a LimitMap.
type lmap interface {
	Put(k, v int64) (int64, bool)
	Get(k int64) (int64, bool)
	Del(k int64)
	RemoveMulti(ks []int64)
	Len() int
}

type lmapOf[K comparable] struct {
	m *hashmap.LimitMap[K, any]
	x keyed[K]
}

func (a lmapOf[K]) Put(k, v int64) (int64, bool) {
	x, b := a.m.Put(a.x.to(k), toAny(v))
	return ofAny(x), b
}
func (a lmapOf[K]) Get(k int64) (int64, bool) { x, b := a.m.Get(a.x.to(k)); return ofAny(x), b }
func (a lmapOf[K]) Del(k int64)               { a.m.Del(a.x.to(k)) }
func (a lmapOf[K]) Len() int                  { return a.m.Len() }
func (a lmapOf[K]) RemoveMulti(ks []int64) {
	var l []K
	for _, k := range ks {
		l = append(l, a.x.to(k))
	}
	given := append([]K(nil), l...)
	a.m.RemoveMulti(l)
	for i := range l {
		if l[i] != given[i] {
			sim.Fail("argument", "RemoveMulti changed the caller's list")
		}
	}
}

func mkLmap[K comparable](p *Prog, to func(int64) K) lmap {
	return lmapOf[K]{hashmap.NewLimitMap[K, any](int(p.G("cap"))), mkKeyed(p.G("keys"), to)}
}

// long turns one run in n into a long one: one task, many operations and keys.
func (r *R) long(n int, p *Prog, tasks, ops int) (int, int) {
	if r.N(n) > 0 {
		return tasks, ops
	}
	for _, k := range []string{"cap", "limit"} {
		if _, ok := p.P[k]; ok {
			p.P[k] = r.In(1, 20)
			p.P["keys"] = p.P[k] + r.In(0, 8)
			if r.N(8) == 0 { // a large one, filled and more
				c := r.Of(33, 64, 100, 128, 200, 257)
				p.P[k], p.P["keys"], p.P["pre"] = c, c+r.Of(1, 9, 40), c+r.Of(-20, 0, 1)
				return 1, int(4 * c)
			}
		}
	}
	return 1, 120
}

// rmKeys draws the keys of a RemoveMulti: few, or (in long runs) many, at times
// naming only a few keys again and again.
func (r *R) rmKeys(no, keys int) (l []int64) {
	n, from, of := r.Of(0, 1, 2, 2, 2, 3, 3), 0, keys
	if no > 12 && r.N(6) == 0 {
		n = r.Of(int64(no)/3, r.In(5, 40), r.In(41, 140), r.In(41, 300))
		if r.N(3) > 0 {
			of = 1 + r.N(keys)
			from = r.N(keys - of + 1)
		}
	}
	for ; n > 0; n-- {
		l = append(l, int64(from+r.N(of)))
	}
	return
}

// pre turns one run in 30 into concurrent tasks on a full container of medium size.
func (r *R) pre(p *Prog, k string, nt int) {
	if nt > 1 && r.N(30) == 0 {
		c := r.In(4, 12)
		p.P[k], p.P["keys"], p.P["pre"] = c, c+r.In(0, 3), c+r.Of(0, 0, 0, -1, -2, 2)
	}
}

// genOps makes nt tasks of up to no operations drawn by pick.
func genOps(r *R, nt, no int, pick func(t, i int) Op) [][]Op {
	var t [][]Op
	for i := 0; i < nt; i++ {
		var l []Op
		if no > 12 {
			for j := no/2 + r.N(no/2+1); j > 0; j-- {
				l = append(l, pick(i, len(l)))
			}
		} else {
			for j := 0; j < 1+r.N(no); j++ {
				l = append(l, pick(i, j))
			}
		}
		t = append(t, l)
	}
	return t
}

func init() {
	Reg(&Scenario{
		ID: "C01", Title: "concurrent maps are linearizable per key", Twin: 10, Quick: 600000, HardMax: 2000000, SoftMax: 20000,
		Rule: "2-4 client tasks x 1-5 operations on 1-3 (at times up to 40) keys (integers, strings, mixed types) of Map/MapL (one run in 50: one task, 60-120 operations; one in 500: up to 900 on up to 300 keys); per-key linearizability of put/get/has/del, range sanity, size at rest",
		Keep: []string{"keys"},
		Real: []string{"hashmap.Map", "hashmap.MapL"}, Stub: []string{"sync.Map and sync/atomic (one atomic step per operation)"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"lenmap": r.In(0, 1), "any": r.In(0, 1), "keys": r.In(1, 3), "kt": r.In(0, 5)}}
			n := 0
			nt, no := r.long(50, p, 2+r.N(3), 5)
			if r.N(20) == 0 {
				p.P["keys"] = r.In(4, 40)
			}
			if r.N(500) == 0 {
				nt, no, p.P["keys"] = 1, 900, r.Of(70, 140, 300)
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				n++
				switch r.W(5, 4, 2, 4, 1) {
				case 0:
					return Op{K: "put", A: []int64{k, r.val(n)}}
				case 1:
					return Op{K: "get", A: []int64{k}}
				case 2:
					return Op{K: "has", A: []int64{k}}
				case 3:
					return Op{K: "del", A: []int64{k}}
				}
				return Op{K: "range", A: []int64{int64(r.N(3))}}
			})
			return p
		},
		Run: func(p *Prog) {
			var m mapLike
			var ml interface{ Len() int64 }
			switch kt := p.G("kt"); kt {
			case 4:
				m, ml = mkMap(p, keyS)
			case 5:
				m, ml = mkMap(p, keyA)
			default:
				m, ml = mkMap(p, func(k int64) int64 { return keyI(kt, k) })
			}
			h := &Hist{}
			puts := map[int64]map[int64]bool{}
			for _, t := range p.T {
				for _, o := range t {
					if o.K == "put" {
						if puts[o.G(0)] == nil {
							puts[o.G(0)] = map[int64]bool{}
						}
						puts[o.G(0)][o.G(1)] = true
					}
				}
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					switch o.K {
					case "put":
						c := h.Call(ti, "put", o.A...)
						v, b := m.Put(o.G(0), o.G(1))
						h.Ret(c, v, b2i(b))
					case "get":
						c := h.Call(ti, "get", o.A...)
						v, b := m.Get(o.G(0))
						h.Ret(c, v, b2i(b))
					case "has":
						c := h.Call(ti, "has", o.A...)
						h.Ret(c, b2i(m.Has(o.G(0))))
					case "del":
						c := h.Call(ti, "del", o.A...)
						h.Ret(c, b2i(m.Del(o.G(0))))
					case "range":
						seen := map[int64]bool{}
						left := o.G(0)
						m.Range(func(k, v int64) bool {
							if seen[k] {
								sim.Fail("range-twice", "Range visited key %d twice", k)
							}
							seen[k] = true
							if !puts[k][v] {
								sim.Fail("range-phantom", "Range reported %d=%d, which was never stored", k, v)
							}
							if o.G(0) > 0 {
								left--
								if left < 0 {
									sim.Fail("range-stop", "Range went on after the callback returned false")
								}
								return left > 0
							}
							return true
						})
					}
				}
			})
			for k := int64(0); k < p.G("keys"); k++ {
				c := h.Call(99, "get", k)
				v, b := m.Get(k)
				h.Ret(c, v, b2i(b))
			}
			// at rest Range, Get and Len agree
			live := 0
			m.Range(func(k, v int64) bool {
				if g, ok := m.Get(k); !ok || g != v {
					sim.Fail("range-get", "at rest Range reports %d=%d but Get says %d,%v", k, v, g, ok)
				}
				live++
				return true
			})
			n := 0
			for k := int64(0); k < p.G("keys"); k++ {
				if m.Has(k) {
					n++
				}
			}
			if n != live {
				sim.Fail("range-miss", "at rest Range visited %d keys, %d are present", live, n)
			}
			if ml != nil && ml.Len() != int64(n) {
				sim.Fail("len", "at rest Len()=%d with %d keys present", ml.Len(), n)
			}
			bk := byKey(h)
			for _, k := range sortedI(bk) {
				LinearOps("not-linearizable", bk[k], regModel)
			}
		},
	})

	Reg(&Scenario{
		ID: "C02", Title: "LimitMap never exceeds its capacity and evicts least recently put", Twin: 10, Quick: 520000, HardMax: 3000000, SoftMax: 20000,
		Rule: "2-4 client tasks on a LimitMap of capacity 1-3 with 2-5 keys (integers, strings, mixed types; one run in 50: one task, 60-1000 operations, capacity up to 257; one in 30: concurrent tasks on a full map of capacity 4-12); linearizability against a sequential bounded map evicting the least recently put entry",
		Real: []string{"hashmap.LimitMap", "container/list"}, Stub: []string{"sync.RWMutex"},
		Min: map[string]int64{"cap": 1}, Keep: []string{"keys"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"cap": r.In(1, 3), "kt": r.In(0, 5)}}
			p.P["keys"] = p.P["cap"] + r.In(0, 2)
			n := 0
			nt, no := r.long(50, p, 2+r.N(3), 5)
			r.pre(p, "cap", nt)
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				n++
				switch r.W(6, 4, 2, 1, 1) {
				case 0:
					return Op{K: "put", A: []int64{k, r.val(n)}}
				case 1:
					return Op{K: "get", A: []int64{k}}
				case 2:
					return Op{K: "del0", A: []int64{k}}
				case 3:
					return Op{K: "rm", A: r.rmKeys(no, int(p.G("keys")))}
				}
				return Op{K: "len"}
			})
			return p
		},
		Run: func(p *Prog) {
			var m lmap
			switch kt := p.G("kt"); kt {
			case 4:
				m = mkLmap(p, keyS)
			case 5:
				m = mkLmap(p, keyA)
			default:
				m = mkLmap(p, func(k int64) int64 { return keyI(kt, k) })
			}
			h := &Hist{}
			do := func(ti int, o Op) {
				c := h.Call(ti, o.K, o.A...)
				switch o.K {
				case "put":
					v, b := m.Put(o.G(0), o.G(1))
					h.Ret(c, v, b2i(b))
				case "get":
					v, b := m.Get(o.G(0))
					h.Ret(c, v, b2i(b))
				case "del0":
					m.Del(o.G(0))
					h.Ret(c)
				case "rm":
					m.RemoveMulti(o.A)
					h.Ret(c)
				case "len":
					n := m.Len()
					if int64(n) > p.G("cap") {
						sim.Fail("over-capacity", "Len()=%d with capacity %d", n, p.G("cap"))
					}
					h.Ret(c, int64(n))
				}
			}
			for i := int64(0); i < p.G("pre"); i++ {
				do(98, Op{K: "put", A: []int64{i % p.G("keys"), 5000 + i}})
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					do(ti, o)
				}
			})
			do(99, Op{K: "len"})
			for k := int64(0); k < p.G("keys"); k++ {
				do(99, Op{K: "get", A: []int64{k}})
			}
			Linear("not-linearizable", h, boundedModel(int(p.G("cap")), true, false))
		},
	})

	Reg(&Scenario{
		ID: "C07", Title: "LruCache is a linearizable LRU of bounded size", Twin: 10, Quick: 520000, HardMax: 3000000, SoftMax: 20000,
		Rule: "2-4 client tasks on an LruCache of capacity 1-3 with 2-5 keys (strings, integers, mixed types that print alike; one run in 50: one task, 60-1000 operations, capacity up to 257; one in 30: concurrent tasks on a full cache of capacity 4-12); linearizability against a sequential LRU",
		Real: []string{"cache.LruCache", "groupcache/lru", "container/list"}, Stub: []string{"sync.Mutex"},
		Min: map[string]int64{"cap": 1}, Keep: []string{"keys"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"cap": r.In(1, 3), "kt": r.In(0, 3)}}
			p.P["keys"] = p.P["cap"] + r.In(0, 2)
			n := 0
			nt, no := r.long(50, p, 2+r.N(3), 5)
			r.pre(p, "cap", nt)
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				n++
				switch r.W(5, 5, 2, 1) {
				case 0:
					return Op{K: "put0", A: []int64{k, r.val(n)}}
				case 1:
					return Op{K: "get", A: []int64{k}}
				case 2:
					return Op{K: "del0", A: []int64{k}}
				}
				return Op{K: "rm", A: r.rmKeys(no, int(p.G("keys")))}
			})
			return p
		},
		Run: func(p *Prog) {
			m := cache.NewLruCache[any](int(p.G("cap")))
			h := &Hist{}
			key := func(k int64) any {
				switch p.G("kt") {
				case 1:
					return keyS(k)
				case 2:
					return keyA(k)
				case 3:
					return k
				}
				return fmt.Sprint("k", k)
			}
			do := func(ti int, o Op) {
				if o.K == "rm" { // its keys are strings; there may be another key that prints like one
					var a []int64
					for _, k := range o.A {
						if _, ok := key(k).(string); ok {
							a = append(a, k)
						}
					}
					o.A = a
				}
				c := h.Call(ti, o.K, o.A...)
				switch o.K {
				case "put0":
					m.Add(key(o.G(0)), toAny(o.G(1)))
					h.Ret(c)
				case "get":
					v, b := m.Get(key(o.G(0)))
					h.Ret(c, ofAny(v), b2i(b))
				case "del0":
					m.Remove(key(o.G(0)))
					h.Ret(c)
				case "rm":
					var l []string
					for _, k := range o.A {
						l = append(l, key(k).(string))
					}
					given := append([]string(nil), l...)
					m.RemoveMulti(l)
					for i := range l {
						if l[i] != given[i] {
							sim.Fail("argument", "RemoveMulti changed the caller's list")
						}
					}
					h.Ret(c)
				}
			}
			for i := int64(0); i < p.G("pre"); i++ {
				do(98, Op{K: "put0", A: []int64{i % p.G("keys"), 5000 + i}})
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					do(ti, o)
				}
			})
			for k := int64(0); k < p.G("keys"); k++ {
				do(99, Op{K: "get", A: []int64{k}})
			}
			Linear("not-linearizable", h, boundedModel(int(p.G("cap")), true, true))
		},
	})
}

// boundedModel: an ordered list of (key,value), front = most recent. capacity
// bounds its length; putMoves: overwriting moves to the front; getMoves: reading does.
func boundedModel(capacity int, putMoves, getMoves bool) Model {
	type kv [2]int64
	find := func(l []kv, k int64) int {
		for i := range l {
			if l[i][0] == k {
				return i
			}
		}
		return -1
	}
	rm := func(l []kv, i int) []kv { return append(append([]kv(nil), l[:i]...), l[i+1:]...) }
	return Model{
		Init: []kv(nil),
		Key: func(st any) string {
			var b strings.Builder
			for _, e := range st.([]kv) {
				fmt.Fprintf(&b, "%d=%d,", e[0], e[1])
			}
			return b.String()
		},
		Step: func(st any, o *HOp) (any, bool) {
			l := st.([]kv)
			pend := o.Ret == 0
			switch o.Name {
			case "put", "put0":
				i := find(l, o.In[0])
				if o.Name == "put" && !pend {
					if (i >= 0) != (o.Out[1] == 1) || i >= 0 && l[i][1] != o.Out[0] {
						return nil, false
					}
				}
				n := kv{o.In[0], o.In[1]}
				if i >= 0 {
					if putMoves {
						return append([]kv{n}, rm(l, i)...), true
					}
					c := append([]kv(nil), l...)
					c[i] = n
					return c, true
				}
				if len(l) >= capacity && capacity > 0 {
					l = l[:len(l)-1]
				}
				return append([]kv{n}, l...), true
			case "get":
				i := find(l, o.In[0])
				if !pend && ((i >= 0) != (o.Out[1] == 1) || i >= 0 && l[i][1] != o.Out[0]) {
					return nil, false
				}
				if i >= 0 && getMoves {
					return append([]kv{l[i]}, rm(l, i)...), true
				}
				return l, true
			case "has":
				return l, pend || (find(l, o.In[0]) >= 0) == (o.Out[0] == 1)
			case "del0":
				if i := find(l, o.In[0]); i >= 0 {
					return rm(l, i), true
				}
				return l, true
			case "rm":
				for _, k := range o.In {
					if i := find(l, k); i >= 0 {
						l = rm(l, i)
					}
				}
				return l, true
			case "clear":
				return []kv(nil), true
			case "len":
				return l, pend || int64(len(l)) == o.Out[0]
			}
			panic(o.Name)
		},
	}
}
