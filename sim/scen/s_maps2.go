package scen

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/hashmap"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// ---------------------------------------------------------------- C03

type lhm interface {
	Put(k, v int64) (int64, bool)
	Get(k int64) (int64, bool)
	Del(k int64)
	Contains(k int64) bool
	Clear()
	Len() int
}

type lhmOf[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string] struct {
	m   *hashmap.LimitHashMap[K, any]
	key func(int64) K
}

func (l *lhmOf[K]) Put(k, v int64) (int64, bool) {
	x, b := l.m.Put(l.key(k), toAny(v))
	return ofAny(x), b
}
func (l *lhmOf[K]) Get(k int64) (int64, bool) { x, b := l.m.Get(l.key(k)); return ofAny(x), b }
func (l *lhmOf[K]) Del(k int64)               { l.m.Del(l.key(k)) }
func (l *lhmOf[K]) Contains(k int64) bool     { return l.m.Contains(l.key(k)) }
func (l *lhmOf[K]) Clear()                    { l.m.Clear() }
func (l *lhmOf[K]) Len() int                  { return l.m.Len() }

func mkLHM[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string](capacity, segs int, key func(int64) K) lhm {
	if segs == 0 {
		return &lhmOf[K]{hashmap.NewLimitHashMap[K, any](capacity), key}
	}
	return &lhmOf[K]{hashmap.NewLimitHashMapWithSegment[K, any](capacity, segs), key}
}

var lhmStr = []string{"alpha", "", "8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "k4", "k5", "k6", "\x00", "k8", "k9"}

// nondeterministic eviction: an absent answer is always acceptable and final
var evictModel = Model{
	Init: int64(-1),
	Key:  regModel.Key,
	Step: func(st any, o *HOp) (any, bool) {
		v := st.(int64)
		if o.Ret != 0 && v >= 0 {
			switch o.Name {
			case "put":
				if o.Out[1] == 0 {
					v = -1
				}
			case "get":
				if o.Out[1] == 0 {
					v = -1
				}
			case "has":
				if o.Out[0] == 0 {
					v = -1
				}
			}
		}
		return regModel.Step(v, o)
	},
}

// ---------------------------------------------------------------- C04

type lkv [2]int64
type lstate struct {
	l    []lkv
	pend int // id of the insertion whose eviction is still to come
}

func linkedModel(limit int) Model {
	find := func(l []lkv, k int64) int {
		for i := range l {
			if l[i][0] == k {
				return i
			}
		}
		return -1
	}
	rm := func(l []lkv, i int) []lkv { return append(append([]lkv(nil), l[:i]...), l[i+1:]...) }
	return Model{
		Init: lstate{},
		Key: func(st any) string {
			s := st.(lstate)
			var b strings.Builder
			fmt.Fprintf(&b, "%d;", s.pend)
			for _, e := range s.l {
				fmt.Fprintf(&b, "%d=%d,", e[0], e[1])
			}
			return b.String()
		},
		Step: func(st any, o *HOp) (any, bool) {
			s := st.(lstate)
			l := s.l
			if o.Name == "get" {
				i := find(l, o.In[0])
				return st, (i >= 0) == (o.Out[1] == 1) && (i < 0 || l[i][1] == o.Out[0])
			}
			if o.Name == "evict" {
				if s.pend != int(o.In[0]) {
					return nil, false
				}
				if len(l) > limit {
					l = l[:len(l)-1]
				}
				return lstate{l, 0}, true
			}
			if s.pend != 0 {
				return nil, false
			}
			same := func(e lkv) bool { return o.Out[2] == 1 && e[0] == o.Out[0] && e[1] == o.Out[1] }
			switch o.Name {
			case "put", "los":
				i := find(l, o.In[0])
				n := lkv{o.In[0], o.In[1]}
				if o.Name == "los" {
					want := n[1]
					if i >= 0 {
						want = l[i][1]
						n = l[i]
					}
					if (i >= 0) != (o.Out[1] == 1) || o.Out[0] != want {
						return nil, false
					}
				}
				if i >= 0 {
					l = rm(l, i)
				}
				return lstate{append([]lkv{n}, l...), int(o.In[2])}, true
			case "del":
				if i := find(l, o.In[0]); i >= 0 {
					l = rm(l, i)
				}
				return lstate{l, 0}, true
			case "mtf":
				if i := find(l, o.In[0]); i >= 0 {
					l = append([]lkv{l[i]}, rm(l, i)...)
				}
				return lstate{l, 0}, true
			case "front":
				if len(l) == 0 {
					return st, o.Out[2] == 0
				}
				return st, same(l[0])
			case "back":
				if len(l) == 0 {
					return st, o.Out[2] == 0
				}
				return st, same(l[len(l)-1])
			case "len":
				return st, o.Out[0] == int64(len(l))
			case "clear":
				return lstate{}, true
			case "order":
				if len(o.Out) != 2*len(l) {
					return nil, false
				}
				for i, e := range l {
					if o.Out[2*i] != e[0] || o.Out[2*i+1] != e[1] {
						return nil, false
					}
				}
				return st, true
			}
			panic(o.Name)
		},
	}
}

type linkedMap interface {
	Put(k, v int64)
	LoadOrStore(k, v int64) (int64, bool)
	Get(k int64) (int64, bool)
	Delete(k int64)
	MoveToFront(k int64)
	Front() (int64, int64, bool)
	Back() (int64, int64, bool)
	Len() int64
	Clear()
	Iterator(front bool) func() (int64, int64, bool)
}

type linkedOf[K comparable] struct {
	m *hashmap.LinkedHashMap[K, any]
	x keyed[K]
}

func mkLinked[K comparable](p *Prog, to func(int64) K) linkedMap {
	return linkedOf[K]{hashmap.NewLinkedHashMap[K, any](p.G("limit")), mkKeyed(p.G("keys"), to)}
}

func (a linkedOf[K]) entry(k K, v any, b bool) (int64, int64, bool) {
	if !b {
		return 0, ofAny(v), b
	}
	return a.x.of(k), ofAny(v), b
}
func (a linkedOf[K]) Put(k, v int64) { a.m.Put(a.x.to(k), toAny(v)) }
func (a linkedOf[K]) LoadOrStore(k, v int64) (int64, bool) {
	x, b := a.m.LoadOrStore(a.x.to(k), toAny(v))
	return ofAny(x), b
}
func (a linkedOf[K]) Get(k int64) (int64, bool)   { x, b := a.m.Get(a.x.to(k)); return ofAny(x), b }
func (a linkedOf[K]) Delete(k int64)              { a.m.Delete(a.x.to(k)) }
func (a linkedOf[K]) MoveToFront(k int64)         { a.m.MoveToFront(a.x.to(k)) }
func (a linkedOf[K]) Front() (int64, int64, bool) { return a.entry(a.m.Front()) }
func (a linkedOf[K]) Back() (int64, int64, bool)  { return a.entry(a.m.Back()) }
func (a linkedOf[K]) Len() int64                  { return a.m.Len() }
func (a linkedOf[K]) Clear()                      { a.m.Clear() }
func (a linkedOf[K]) Iterator(front bool) func() (int64, int64, bool) {
	it := a.m.Iterator(front)
	return func() (int64, int64, bool) { return a.entry(it.Next()) }
}

// ---------------------------------------------------------------- C05

type treeMap interface {
	Put(k, v int64) (int64, bool)
	Get(k int64) (int64, bool)
	Del(k int64)
	Ascend(f func(k, v int64) bool)
	Descend(f func(k, v int64) bool)
}

type treeOf[K cmp.Ordered] struct {
	m *hashmap.TreeMap[K, any]
	x keyed[K]
}

// mkTree needs a strictly increasing to.
func mkTree[K cmp.Ordered](p *Prog, to func(int64) K) treeMap {
	return treeOf[K]{hashmap.NewTreeMap[K, any](int(p.G("degree"))), mkKeyed(p.G("keys"), to)}
}

func (a treeOf[K]) Put(k, v int64) (int64, bool) {
	x, b := a.m.Put(a.x.to(k), toAny(v))
	return ofAny(x), b
}
func (a treeOf[K]) Get(k int64) (int64, bool) { x, b := a.m.Get(a.x.to(k)); return ofAny(x), b }
func (a treeOf[K]) Del(k int64)               { a.m.Del(a.x.to(k)) }
func (a treeOf[K]) Ascend(f func(k, v int64) bool) {
	a.m.Ascend(func(k K, v any) bool { return f(a.x.of(k), ofAny(v)) })
}
func (a treeOf[K]) Descend(f func(k, v int64) bool) {
	a.m.Descend(func(k K, v any) bool { return f(a.x.of(k), ofAny(v)) })
}

func treeModel() Model {
	return Model{
		Init: []lkv(nil),
		Key:  func(st any) string { return fmt.Sprint(st.([]lkv)) },
		Step: func(st any, o *HOp) (any, bool) {
			l := st.([]lkv)
			i := 0
			if len(o.In) > 0 {
				i = sort.Search(len(l), func(i int) bool { return l[i][0] >= o.In[0] })
			}
			hit := i < len(l) && len(o.In) > 0 && l[i][0] == o.In[0]
			switch o.Name {
			case "put":
				if hit != (o.Out[1] == 1) || hit && l[i][1] != o.Out[0] {
					return nil, false
				}
				c := append([]lkv(nil), l[:i]...)
				c = append(c, lkv{o.In[0], o.In[1]})
				if hit {
					i++
				}
				return append(c, l[i:]...), true
			case "get":
				return l, hit == (o.Out[1] == 1) && (!hit || l[i][1] == o.Out[0])
			case "del0":
				if hit {
					return append(append([]lkv(nil), l[:i]...), l[i+1:]...), true
				}
				return l, true
			case "asc", "desc":
				n := len(l)
				if o.In[0] > 0 && int(o.In[0]) < n {
					n = int(o.In[0])
				}
				if len(o.Out) != 2*n {
					return nil, false
				}
				for j := 0; j < n; j++ {
					e := l[j]
					if o.Name == "desc" {
						e = l[len(l)-1-j]
					}
					if o.Out[2*j] != e[0] || o.Out[2*j+1] != e[1] {
						return nil, false
					}
				}
				return l, true
			}
			panic(o.Name)
		},
	}
}

func init() {
	Reg(&Scenario{
		ID: "C03", Title: "LimitHashMap is a bounded map", Twin: 10, Quick: 500000, HardMax: 3000000, SoftMax: 20000,
		Rule: "2-4 client tasks on a LimitHashMap (all 14 key types; nil and other values; 1-64 segments; capacity 1-110; one run in 50 has one task doing 60-120 operations, one in 400 up to 1000 on a capacity of up to 230): exact FIFO model with one segment, per-key linearizability with eviction only where a segment can overflow otherwise, Len never above capacity",
		Real: []string{"hashmap.LimitHashMap", "container/list"}, Stub: []string{"sync.RWMutex"},
		Min: map[string]int64{"cap": 1}, Keep: []string{"segs", "keys"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"kt": r.Of(0, 1, 0, 1, r.In(2, 14))}}
			switch r.W(5, 4, 2) {
			case 0:
				p.P["segs"] = 1
				p.P["cap"] = r.In(1, 3)
				p.P["keys"] = p.P["cap"] + r.In(0, 2)
			case 1:
				p.P["segs"] = r.In(2, 4)
				p.P["cap"] = p.P["segs"]*r.In(1, 3) + r.In(0, 2)
				p.P["keys"] = r.In(1, 8)
			default: // the default segment count, or more segments than capacity
				p.P["segs"] = r.Of(0, 5, 8)
				p.P["cap"] = r.Of(1, 2, 3, 5, 64, 70)
				p.P["keys"] = r.In(2, 9)
			}
			n := 0
			nt, no := 1+r.N(4), 6
			if r.N(50) == 0 {
				nt, no = 1, 120
				p.P["cap"] += r.In(0, 20)
				p.P["keys"] += r.In(0, 16)
				if r.N(8) == 0 {
					c := r.Of(33, 64, 100, 128, 200, 230)
					p.P["cap"], p.P["keys"], p.P["pre"], no = c, c+r.Of(1, 9, 16), c+r.Of(-20, 0, 1), int(4*c)
				}
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				n++
				switch r.W(7, 4, 2, 2, 1, 1) {
				case 0:
					return Op{K: "put", A: []int64{k, r.val(n)}}
				case 1:
					return Op{K: "get", A: []int64{k}}
				case 2:
					return Op{K: "del0", A: []int64{k}}
				case 3:
					return Op{K: "has", A: []int64{k}}
				case 4:
					return Op{K: "clear"}
				}
				return Op{K: "len"}
			})
			return p
		},
		Run: func(p *Prog) {
			capacity, segs := int(p.G("cap")), int(p.G("segs"))
			var m lhm
			switch p.G("kt") {
			case 0:
				m = mkLHM(capacity, segs, keyS)
			case 1: // the first two collide
				m = mkLHM(capacity, segs, func(k int64) string {
					if k >= 10 {
						return fmt.Sprint("more", k)
					}
					return lhmStr[(k+2)%10]
				})
			case 2:
				m = mkLHM(capacity, segs, func(k int64) int { return int(k)*37 - 40 })
			case 3:
				m = mkLHM(capacity, segs, func(k int64) float64 { return float64(k)*0.75 - 1.5 })
			case 4:
				m = mkLHM(capacity, segs, func(k int64) int8 { return int8(k*29 - 100) })
			case 5:
				m = mkLHM(capacity, segs, func(k int64) uint8 { return uint8(k * 67) })
			case 6:
				m = mkLHM(capacity, segs, func(k int64) int16 { return int16(k*4099 - 20000) })
			case 7:
				m = mkLHM(capacity, segs, func(k int64) int32 { return int32(k*268435459 - 1<<31) })
			case 8:
				m = mkLHM(capacity, segs, func(k int64) int64 { return k*0x4000000000000001 - 3 })
			case 9:
				m = mkLHM(capacity, segs, func(k int64) uint { return uint(k) * 0x8000000000000007 })
			case 10:
				m = mkLHM(capacity, segs, func(k int64) uint16 { return uint16(k * 4093) })
			case 11:
				m = mkLHM(capacity, segs, func(k int64) uint32 { return uint32(k * 268435399) })
			case 12:
				m = mkLHM(capacity, segs, func(k int64) uint64 { return uint64(k) * 0xff00000000000005 })
			case 13:
				m = mkLHM(capacity, segs, func(k int64) float32 { return float32(k)*1.5 - 4 })
			default:
				m = mkLHM(capacity, segs, func(k int64) uintptr { return uintptr(k * 65536) })
			}
			h := &Hist{}
			do := func(ti int, o Op) {
				c := h.Call(ti, o.K, o.A...)
				switch o.K {
				case "put":
					v, b := m.Put(o.G(0), o.G(1))
					h.Ret(c, v, b2i(b))
				case "get":
					v, b := m.Get(o.G(0))
					h.Ret(c, v, b2i(b))
				case "has":
					h.Ret(c, b2i(m.Contains(o.G(0))))
				case "del0":
					m.Del(o.G(0))
					h.Ret(c)
				case "clear":
					m.Clear()
					h.Ret(c)
				case "len":
					n := m.Len()
					if n > capacity {
						sim.Fail("over-capacity", "Len()=%d with capacity %d", n, capacity)
					}
					h.Ret(c, int64(n))
				}
			}
			for i := int64(0); i < p.G("pre"); i++ {
				do(98, Op{K: "put", A: []int64{i % p.G("keys"), 5000 + i}})
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					do(ti, o)
				}
			})
			do(99, Op{K: "len"})
			present := 0
			for k := int64(0); k < p.G("keys"); k++ {
				do(99, Op{K: "get", A: []int64{k}})
				has := m.Contains(k)
				if _, ok := m.Get(k); ok != has {
					sim.Fail("get-contains", "at rest Contains=%v but Get=%v for key %d", has, ok, k)
				}
				if has {
					present++
				}
			}
			if n := m.Len(); n != present {
				sim.Fail("len", "at rest Len()=%d but %d keys are present", n, present)
			}
			kstr := p.G("kt") == 1
			if segs == 1 && !kstr {
				Linear("not-linearizable", h, boundedModel(capacity, false, false))
			} else {
				eff := segs
				if eff == 0 {
					eff = 64
				}
				if eff > capacity {
					eff = capacity
				}
				distinct := map[int64]bool{}
				for _, o := range h.Ops {
					if o.Name == "put" {
						distinct[o.In[0]] = true
					}
				}
				model := regModel
				// the two colliding strings (keys 0 and 1) may displace each other
				if len(distinct) > capacity/eff || kstr {
					model = evictModel
				}
				bk := map[int64][]*HOp{}
				for _, o := range h.Ops {
					if o.Name == "clear" {
						for k := int64(0); k < p.G("keys"); k++ {
							c := *o
							c.Name, c.In = "del0", []int64{k}
							bk[k] = append(bk[k], &c)
						}
					} else if len(o.In) > 0 {
						bk[o.In[0]] = append(bk[o.In[0]], o)
					}
				}
				for _, k := range sortedI(bk) {
					mm := model
					if kstr && k > 1 && len(distinct) <= capacity/eff {
						mm = regModel
					}
					LinearOps("not-linearizable", bk[k], mm)
				}
			}
			// a put is never lost to its own eviction; then a fresh bounded refill
			for k := int64(0); k < p.G("keys"); k++ {
				m.Put(k, 5000+k)
				if v, ok := m.Get(k); !ok || v != 5000+k {
					sim.Fail("put-lost", "Put(%d,%d) followed by Get: %d,%v", k, 5000+k, v, ok)
				}
				if n := m.Len(); n > capacity {
					sim.Fail("over-capacity", "Len()=%d with capacity %d", n, capacity)
				}
			}
			m.Clear()
			if m.Len() != 0 {
				sim.Fail("clear", "Len()=%d after Clear", m.Len())
			}
		},
	})

	Reg(&Scenario{
		ID: "C04", Title: "LinkedHashMap keeps insertion/access order and its limit", Twin: 10, Quick: 500000, HardMax: 3000000, SoftMax: 20000,
		Rule: "2-4 client tasks x 1-5 operations (put, load-or-store, get, delete, move-to-front, front, back, len, clear, iterate) on a LinkedHashMap of limit 1-3 (integer, string and mixed keys; one run in 50: one task, 60-1000 operations, limit up to 257; one in 30: concurrent tasks on a full map of limit 4-12); linearizability against an ordered-list model in which a get may still see the entry an overlapping insertion is evicting",
		Real: []string{"hashmap.LinkedHashMap", "container/list"}, Stub: []string{"sync.Map, sync.Mutex"},
		Min: map[string]int64{"limit": 1}, Keep: []string{"keys"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"limit": r.In(1, 3), "kt": r.In(0, 5)}}
			p.P["keys"] = p.P["limit"] + r.In(0, 2)
			n := 0
			nt, no := r.long(50, p, 1+r.N(4), 5)
			r.pre(p, "limit", nt)
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				n++
				switch r.W(7, 4, 5, 3, 2, 1, 1, 1, 1, 1) {
				case 0:
					return Op{K: "put", A: []int64{k, r.val(n), int64(n)}}
				case 1:
					return Op{K: "los", A: []int64{k, r.val(n), int64(n)}}
				case 2:
					return Op{K: "get", A: []int64{k}}
				case 3:
					return Op{K: "del", A: []int64{k}}
				case 4:
					return Op{K: "mtf", A: []int64{k}}
				case 5:
					return Op{K: "front"}
				case 6:
					return Op{K: "back"}
				case 7:
					return Op{K: "len"}
				case 8:
					return Op{K: "iter", A: []int64{int64(r.N(2))}}
				}
				return Op{K: "clear"}
			})
			return p
		},
		Run: func(p *Prog) {
			var m linkedMap
			switch kt := p.G("kt"); kt {
			case 4:
				m = mkLinked(p, keyS)
			case 5:
				m = mkLinked(p, keyA)
			default:
				m = mkLinked(p, func(k int64) int64 { return keyI(kt, k) })
			}
			h := &Hist{}
			stored := map[lkv]bool{}
			for _, t := range p.T {
				for _, o := range t {
					if o.K == "put" || o.K == "los" {
						stored[lkv{o.G(0), o.G(1)}] = true
					}
				}
			}
			split := func(c *HOp) {
				e := *c
				e.Name, e.In = "evict", []int64{c.In[2]}
				if len(p.T) == 1 || c.Task == 98 { // nothing overlaps
					e.Call = h.Mark()
					e.Ret = h.Mark()
				}
				h.Ops = append(h.Ops, &e)
			}
			do := func(ti int, o Op) {
				if o.K == "iter" {
					next := m.Iterator(o.G(0) == 1)
					for n := 0; ; n++ {
						k, v, ok := next()
						if !ok {
							break
						}
						if !stored[lkv{k, v}] {
							sim.Fail("iter-phantom", "iterator yielded %d=%d, which was never stored", k, v)
						}
					}
					return
				}
				c := h.Call(ti, o.K, o.A...)
				switch o.K {
				case "put":
					m.Put(o.G(0), o.G(1))
					h.Ret(c)
					split(c)
				case "los":
					v, b := m.LoadOrStore(o.G(0), o.G(1))
					h.Ret(c, v, b2i(b))
					split(c)
				case "get":
					v, b := m.Get(o.G(0))
					h.Ret(c, v, b2i(b))
				case "del":
					m.Delete(o.G(0))
					h.Ret(c)
				case "mtf":
					m.MoveToFront(o.G(0))
					h.Ret(c)
				case "front":
					k, v, b := m.Front()
					h.Ret(c, k, v, b2i(b))
				case "back":
					k, v, b := m.Back()
					h.Ret(c, k, v, b2i(b))
				case "len":
					n := m.Len()
					if n > p.G("limit") || n < 0 {
						sim.Fail("over-limit", "Len()=%d with limit %d", n, p.G("limit"))
					}
					h.Ret(c, n)
				case "clear":
					m.Clear()
					h.Ret(c)
				}
			}
			for i := int64(0); i < p.G("pre"); i++ {
				stored[lkv{i % p.G("keys"), 5000 + i}] = true
				do(98, Op{K: "put", A: []int64{i % p.G("keys"), 5000 + i, 5000 + i}})
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					do(ti, o)
				}
			})
			do(99, Op{K: "len"})
			for k := int64(0); k < p.G("keys"); k++ {
				do(99, Op{K: "get", A: []int64{k}})
			}
			var ord [2][]int64
			for d := 0; d < 2; d++ {
				c := h.Call(99, "order")
				next := m.Iterator(d == 0)
				for n := 0; n < 2000; n++ {
					k, v, ok := next()
					if !ok {
						break
					}
					if d == 0 {
						ord[d] = append(ord[d], k, v)
					} else {
						ord[d] = append([]int64{k, v}, ord[d]...)
					}
				}
				h.Ret(c, ord[d]...)
			}
			Linear("not-linearizable", h, linkedModel(int(p.G("limit"))))
		},
	})

	Reg(&Scenario{
		ID: "C05", Title: "TreeMap is linearizable and traverses in key order atomically", Twin: 10, Quick: 240000, HardMax: 1500000, SoftMax: 80000,
		Rule: "2-4 client tasks on a TreeMap of B-tree degree 2-4 prefilled with 0-14 keys (at times 70-300; integers up to the extremes, floats, strings); linearizability with whole traversals (also stopped early) as single operations",
		Real: []string{"hashmap.TreeMap", "google/btree"}, Stub: []string{"sync.RWMutex"},
		Min: map[string]int64{"degree": 2}, Keep: []string{"keys"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"degree": r.In(2, 4), "keys": r.In(1, 14), "pre": r.In(0, 14), "salt": r.In(0, 1000), "kt": r.In(0, 5)}}
			n := 0
			nt, no := 2+r.N(3), 5
			if r.N(50) == 0 {
				nt, no = 1, 120
				p.P["keys"] = r.In(10, 60)
			}
			trav := 1
			if r.N(100) == 0 { // many keys: traversals that take long
				nt, no, trav = 2+r.N(2), 4, 4
				p.P["degree"], p.P["keys"], p.P["pre"] = r.Of(2, 3, 16, 64), r.Of(70, 140, 300), r.Of(100, 200, 400)
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				n++
				if trav > 1 && r.N(2) == 0 { // near the ends
					k = r.Of(0, 1, p.G("keys")-2, p.G("keys")-1)
				}
				switch r.W(6, 4, 4, trav, trav) {
				case 0:
					return Op{K: "put", A: []int64{k, r.val(n)}}
				case 1:
					return Op{K: "get", A: []int64{k}}
				case 2:
					return Op{K: "del0", A: []int64{k}}
				case 3:
					return Op{K: "asc", A: []int64{int64(r.N(4))}}
				}
				return Op{K: "desc", A: []int64{int64(r.N(4))}}
			})
			return p
		},
		Run: func(p *Prog) {
			var m treeMap
			switch kt := p.G("kt"); kt {
			case 1:
				m = mkTree(p, func(k int64) int64 { return k<<32 | 7 })
			case 2:
				m = mkTree(p, func(k int64) int64 { return (k - 5) * (math.MaxInt64 / 400) })
			case 3:
				m = mkTree(p, func(k int64) uint64 { return 1<<63 - 6 + uint64(k) })
			case 4:
				m = mkTree(p, func(k int64) string { return sortedS[k] })
			case 5:
				m = mkTree(p, keyF)
			default:
				m = mkTree(p, func(k int64) int64 { return k })
			}
			h := &Hist{}
			do := func(ti int, o Op) {
				c := h.Call(ti, o.K, o.A...)
				switch o.K {
				case "put":
					v, b := m.Put(o.G(0), o.G(1))
					h.Ret(c, v, b2i(b))
				case "get":
					v, b := m.Get(o.G(0))
					h.Ret(c, v, b2i(b))
				case "del0":
					m.Del(o.G(0))
					h.Ret(c)
				case "asc", "desc":
					var out []int64
					f := func(k, v int64) bool {
						out = append(out, k, v)
						return o.G(0) == 0 || len(out) < int(2*o.G(0))
					}
					if o.K == "asc" {
						m.Ascend(f)
					} else {
						m.Descend(f)
					}
					h.Ret(c, out...)
				}
			}
			rr := NewR(uint64(p.G("salt")))
			for i := int64(0); i < p.G("pre"); i++ {
				do(98, Op{K: "put", A: []int64{int64(rr.N(int(p.G("keys")))), 1000 + i}})
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					do(ti, o)
				}
			})
			do(99, Op{K: "asc", A: []int64{0}})
			do(99, Op{K: "desc", A: []int64{0}})
			for k := int64(0); k < p.G("keys"); k++ {
				do(99, Op{K: "get", A: []int64{k}})
			}
			Linear("not-linearizable", h, treeModel())
		},
	})

	Reg(&Scenario{
		ID: "C06", Title: "Consistenthash lookups depend only on the node set and move minimally", Twin: 10, Quick: 200000, HardMax: 20000000, SoftMax: 7000000,
		Rule: "1-4 client tasks adding, deleting and looking up on a ring of 0-6 nodes (small, extreme, look-alike or random int64 names) (one run in 2500: up to 24) with 1-5 (one in 250: up to 260) virtual nodes each; every answer must equal that of a freshly built ring of some node set reachable at that moment; at rest, removing or adding any node moves only that node's keys and the successor list is the takeover order",
		Real: []string{"hashmap.Consistenthash", "hashmap.Map", "buffer (pooled)"}, Stub: []string{"sync"},
		Min: map[string]int64{"replicas": 1}, Keep: []string{"nodes", "names"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"replicas": r.In(1, 5), "nodes": r.In(1, 6), "salt": r.In(0, 1<<40), "names": r.In(0, 3)}}
			if r.N(250) == 0 {
				p.P["replicas"], p.P["nodes"] = r.Of(12, 40, 260), r.In(1, 3)
			}
			nt, no := 1+r.N(4), 5
			if r.N(2500) == 0 {
				p.P["replicas"], p.P["nodes"], p.P["names"] = r.In(1, 3), r.In(7, 24), r.Of(0, 3)
				nt, no = 1, 30
			}
			nd := func() int64 { return int64(r.N(int(p.G("nodes")))) }
			p.P["again"] = int64(r.N(4))
			same, again := []int64{r.In(0, 1<<30), r.In(0, 3)}, r.Of(0, 3, 9)
			val := func(v int64) int64 { // often one of two
				if int64(r.N(10)) < again {
					return same[r.N(2)]
				}
				return v
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				switch r.W(5, 3, 3, 3, 3, 1) {
				case 0:
					o := Op{K: "add"}
					for j := 0; j < 1+r.N(3); j++ {
						o.A = append(o.A, nd())
					}
					return o
				case 1:
					return Op{K: "del", A: []int64{nd()}}
				case 2:
					return Op{K: "get", A: []int64{val(r.Of(r.In(0, 1<<30), r.In(-1<<62, 1<<62), r.In(0, 3)))}}
				case 3:
					return Op{K: "getstr", A: []int64{val(r.Of(r.In(0, 1<<30), r.In(0, 80)))}}
				case 4:
					return Op{K: "next", A: []int64{val(r.In(0, 1<<30)), r.Of(1, 2, 3, 4, 9)}}
				}
				return Op{K: "nodes"}
			})
			return p
		},
		Run: func(p *Prog) {
			name := func(i int64) int64 {
				switch p.G("names") {
				case 1: // small numbers, one a decimal or binary prefix of another
					return []int64{1, 11, 0, 2, 256, 111}[i]
				case 2: // alike in their low, or high, bytes
					return []int64{1, 1 + 1<<32, -1, 1 + 1<<56, 1<<63 - 1, -1 << 63}[i]
				case 3:
					return p.G("salt")%1000 - 500 + i
				}
				return int64(sim.Mix(uint64(p.G("salt")), uint64(i))>>1) - 1<<62*(i&1)
			}
			str := func(v int64) string {
				if v%7 == 0 { // from the empty string up
					return strings.Repeat("k", int(v/7%9)) + fmt.Sprint(v / 63)[:b2i(v >= 63)]
				}
				return fmt.Sprintf("key-%x", v)
			}
			back := map[int64]int64{}
			for i := int64(0); i < p.G("nodes"); i++ {
				back[name(i)] = i
			}
			idx := func(n int64) int64 {
				if i, ok := back[n]; ok {
					return i
				}
				sim.Fail("unknown-node", "lookup returned %d, which was never added", n)
				return -1
			}
			m := hashmap.NewConsistenthash(int(p.G("replicas")))
			h := &Hist{}
			do := func(ti int, o Op) {
				c := h.Call(ti, o.K, o.A...)
				switch o.K {
				case "add":
					var l []int64
					for _, a := range o.A {
						l = append(l, name(a))
					}
					m.Add(l...)
					h.Ret(c)
				case "del":
					m.Del(name(o.G(0)))
					h.Ret(c)
				case "get", "getstr":
					var n int64
					var ok bool
					if o.K == "get" {
						n, ok = m.Get(o.G(0))
					} else {
						n, ok = m.GetStr(str(o.G(0)))
					}
					if !ok {
						h.Ret(c, -1)
					} else {
						h.Ret(c, idx(n))
					}
				case "next":
					l, ok := m.GetNextNodeStr(str(o.G(0)), int(o.G(1)))
					out := []int64{b2i(ok)}
					for _, n := range l {
						out = append(out, idx(n))
					}
					h.Ret(c, out...)
				case "nodes":
					var out []int64
					for _, n := range m.Nodes() {
						out = append(out, idx(n))
					}
					sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
					h.Ret(c, out...)
				}
			}
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					Must(o.String(), func() { do(ti, o) })
				}
			})
			Must("lookup", func() {
				var asked []Op
				for _, ops := range p.T {
					for _, o := range ops {
						if o.K == "get" || o.K == "getstr" || o.K == "next" {
							asked = append(asked, o)
						}
					}
				}
				for i := range asked { // what was asked before, in some order
					do(99, asked[(i+int(p.G("again")))%len(asked)])
				}
				do(99, Op{K: "nodes"})
				for v := int64(0); v < 4; v++ {
					do(99, Op{K: "get", A: []int64{v * 7919}})
					do(99, Op{K: "getstr", A: []int64{v * 104729}})
					do(99, Op{K: "next", A: []int64{v * 104729, 2}})
				}
			})
			// rings built from scratch, one per node set (bit mask)
			rings := map[int64]*hashmap.Consistenthash{}
			ring := func(set int64) *hashmap.Consistenthash {
				c := rings[set]
				if c == nil {
					c = hashmap.NewConsistenthash(int(p.G("replicas")))
					for i := p.G("nodes") - 1; i >= 0; i-- {
						if set>>i&1 == 1 {
							c.Add(name(i))
						}
					}
					rings[set] = c
				}
				return c
			}
			getstr := func(set, v int64) int64 {
				n, ok := ring(set).GetStr(str(v))
				if !ok {
					return -1
				}
				return idx(n)
			}
			next := func(set, v, step int64) []int64 {
				l, ok := ring(set).GetNextNodeStr(str(v), int(step))
				out := []int64{b2i(ok)}
				for _, n := range l {
					out = append(out, idx(n))
				}
				return out
			}
			eq := func(a, b []int64) bool {
				if len(a) != len(b) {
					return false
				}
				for i := range a {
					if a[i] != b[i] {
						return false
					}
				}
				return true
			}
			Linear("not-linearizable", h, Model{
				Init: int64(0),
				Key:  func(st any) string { return fmt.Sprint(st) },
				Step: func(st any, o *HOp) (any, bool) {
					set := st.(int64)
					switch o.Name {
					case "add":
						for _, a := range o.In {
							set |= 1 << a
						}
						return set, true
					case "del":
						return set &^ (1 << o.In[0]), true
					case "get":
						n, ok := ring(set).Get(o.In[0])
						if !ok {
							return set, o.Out[0] == -1
						}
						return set, o.Out[0] == idx(n)
					case "getstr":
						return set, o.Out[0] == getstr(set, o.In[0])
					case "next":
						return set, eq(o.Out, next(set, o.In[0], o.In[1]))
					case "nodes":
						var l []int64
						for i := int64(0); i < p.G("nodes"); i++ {
							if set>>i&1 == 1 {
								l = append(l, i)
							}
						}
						return set, eq(o.Out, l)
					}
					panic(o.Name)
				},
			})
			// minimal movement, on the ring that went through the history
			set, n := int64(0), int64(0)
			for _, nd := range m.Nodes() {
				set |= 1 << idx(nd)
				n++
			}
			for v := int64(0); v < 6; v++ {
				key := v*982451653 + 11
				g := getstr(set, key)
				if (g >= 0) != (n > 0) || g >= 0 && set>>g&1 == 0 {
					sim.Fail("not-live", "key %d maps to node %d of node set %b", key, g, set)
				}
				for i := int64(0); i < p.G("nodes"); i++ {
					if set>>i&1 == 1 {
						without := getstr(set&^(1<<i), key)
						if g != i && without != g {
							sim.Fail("moved", "removing node %d moved key %d from node %d to %d", i, key, g, without)
						}
					} else if with := getstr(set|1<<i, key); with != g && with != i {
						sim.Fail("moved", "adding node %d moved key %d from node %d to %d", i, key, g, with)
					}
				}
				if n == 0 {
					continue
				}
				for step := int64(1); step <= n; step++ {
					nx := next(set, key, step)
					want := min(step, n-1)
					if nx[0] != 1 || int64(len(nx)) != 1+want {
						sim.Fail("successors", "GetNextNodeStr(step=%d) gave %v with %d nodes live", step, nx[1:], n)
					}
					s, cur := set, g
					for _, x := range nx[1:] {
						s &^= 1 << cur
						if t := getstr(s, key); t != x {
							sim.Fail("successors", "GetNextNodeStr says %v but node %d takes over from %d", nx[1:], t, cur)
						}
						cur = x
					}
				}
			}
			// the same, live: delete every node one by one
			Must("lookup on the emptied ring", func() {
				for _, nd := range m.Nodes() {
					before, _ := m.Get(4242)
					m.Del(nd)
					after, ok := m.Get(4242)
					if ok && before != nd && after != before {
						sim.Fail("moved", "deleting node %d moved a key from node %d to %d", idx(nd), idx(before), idx(after))
					}
				}
				if _, ok := m.Get(1); ok {
					sim.Fail("not-live", "Get succeeds on an empty ring")
				}
				if _, ok := m.GetStr("x"); ok {
					sim.Fail("not-live", "GetStr succeeds on an empty ring")
				}
				if l, ok := m.GetNextNodeStr("x", 1); ok || len(l) > 0 {
					sim.Fail("not-live", "GetNextNodeStr succeeds on an empty ring")
				}
				m.Add(name(0))
				if g, ok := m.Get(1); !ok || g != name(0) {
					sim.Fail("not-live", "a node added to the emptied ring is not found")
				}
			})
		},
	})

	Reg(&Scenario{
		ID: "C08", Title: "BloomFilter has no false negatives for recent items", Twin: 10, Quick: 120000, HardMax: 20000000, SoftMax: 2000000,
		Rule: "1-5 phases of up to 4 concurrent tasks (fewer than expectedItems additions per phase) on a filter for 1-9 (sometimes 17 to 100) items and error rates from 1e-10 to 0.99; every item among the last expectedItems additions whose Add returned must be reported at once and at the end of every phase",
		Real: []string{"cache.BloomFilter"}, Stub: []string{"sync, sync/atomic", "hash/maphash seeds from the run's seed"},
		Min: map[string]int64{"expect": 1},
		Gen: func(r *R) *Prog {
			e := r.In(2, 9)
			if r.N(20) == 0 {
				e = r.Of(1, 1, 17, 26)
			}
			p := &Prog{P: map[string]int64{"expect": e, "pre": r.In(0, 4*e), "fpr": r.Of(1, 2, 3, 1, 2, 3, 4, 5, 6), "items": r.In(0, 1)}}
			if r.P(0.05) {
				p.P["weak"] = r.Of(1, 2, 16)
			}
			if r.N(1500) == 0 {
				e = r.Of(40, 64, 100)
				p.P["expect"], p.P["fpr"], p.P["pre"] = e, r.Of(1, 2, 4), r.In(0, 2*e)
			}
			n := int64(0)
			for ph := int64(0); ph < r.In(1, 5); ph++ {
				left := e - 1
				for t := int64(0); t < r.In(1, 4); t++ {
					l := []Op{}
					for j := 0; j < 1+r.N(3) && left > 0; j++ {
						left--
						n++
						l = append(l, Op{K: "add", A: []int64{ph, n}})
						if r.P(0.3) {
							l = append(l, Op{K: "look", A: []int64{ph}})
						}
					}
					if len(l) == 0 {
						l = []Op{{K: "look", A: []int64{ph}}}
					}
					p.T = append(p.T, l)
				}
			}
			return p
		},
		Run: func(p *Prog) {
			e := p.G("expect")
			fpr := []float64{0.3, 0.3, 0.05, 0.001, 0.99, 0.7, 1e-10}[p.G("fpr")]
			weakHash(p)
			bf := cache.NewBloomFilter(uint64(e), fpr)
			item := func(i int64) []byte {
				if p.G("items") == 0 {
					return []byte(fmt.Sprintf("item-%d", i))
				}
				b := make([]byte, (i%41+41)%41) // from empty to several blocks
				for j := range b {
					b[j] = byte(i >> (j % 8 * 8))
				}
				return b
			}
			started, ended := int64(0), int64(0)
			type rec struct{ id, at int64 } // at: additions over when this one began
			var done []rec
			check := func(r rec, when string) {
				// at most expect-1 other additions were in progress since this one began
				if started-r.at-1 < e && !bf.Contains(item(r.id)) {
					// re-evaluate: additions may have begun while Contains ran
					if started-r.at-1 < e {
						sim.Fail("false-negative", "item %d (begun after %d of %d additions, expectedItems=%d) is not reported %s", r.id, r.at, started, e, when)
					}
				}
			}
			add := func(id int64) {
				started++
				r := rec{id, ended}
				bf.Add(item(id))
				ended++
				done = append(done, r)
				check(r, "right after its Add returned")
			}
			all := func(when string) {
				for i := len(done) - 1; i >= 0 && i > len(done)-int(e)-3; i-- {
					check(done[i], when)
				}
			}
			for i := int64(0); i < p.G("pre"); i++ {
				add(-1 - i)
				all("between sequential additions")
			}
			for ph := int64(0); ph < 6; ph++ {
				var ts []*sim.Task
				left := e - 1
				for i, t := range p.T {
					if len(t) == 0 || t[0].G(0) != ph {
						continue
					}
					t := slices.DeleteFunc(slices.Clone(t), func(o Op) bool { // only a shrunk program has too many
						if o.K == "add" {
							left--
						}
						return o.K == "add" && left < 0
					})
					ts = append(ts, sim.Spawn(fmt.Sprintf("T%d", i), func() {
						for _, o := range t {
							if o.K == "add" {
								add(o.G(1))
							} else {
								all("during additions")
							}
						}
					}))
				}
				sim.Join(ts...)
				all("at the end of a phase")
			}
		},
	})
}
