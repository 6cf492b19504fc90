package sync

import (
	"github.com/donnie4w/gofer/verifsim/sim"
)

// Map: every operation is atomic (and a scheduling point); Range is weakly
// consistent exactly as documented: no key twice, keys stored or deleted during
// the walk may or may not be seen, values are current when visited.
type Map struct {
	m    map[any]*mapEnt
	ord  []*mapEnt
	dead int
	vc   sim.VC
}

type mapEnt struct {
	k, v any
	live bool
}

func (m *Map) sync() { sim.Prim(sim.KSyncMap); sim.Acquire(&m.vc); sim.Release(&m.vc) }

func (m *Map) get(k any) (*mapEnt, bool) {
	e, ok := m.m[k]
	return e, ok
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]*mapEnt{}
	}
	if e, ok := m.m[k]; ok {
		e.v = v
		return
	}
	e := &mapEnt{k, v, true}
	m.m[k] = e
	m.ord = append(m.ord, e)
}

func (m *Map) del(k any) {
	if e, ok := m.m[k]; ok {
		e.live = false
		delete(m.m, k)
		m.dead++
		if m.dead > 32 && m.dead > len(m.ord)/2 {
			var o []*mapEnt
			for _, x := range m.ord {
				if x.live {
					o = append(o, x)
				}
			}
			m.ord, m.dead = o, 0
		}
	}
}

func (m *Map) Load(key any) (value any, ok bool) {
	m.sync()
	if e, f := m.get(key); f {
		return e.v, true
	}
	return nil, false
}

func (m *Map) Store(key, value any) { m.sync(); m.set(key, value) }

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	m.sync()
	if e, ok := m.get(key); ok {
		return e.v, true
	}
	m.set(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	m.sync()
	if e, ok := m.get(key); ok {
		v := e.v
		m.del(key)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(key any) { m.sync(); m.del(key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	m.sync()
	if e, ok := m.get(key); ok {
		p := e.v
		e.v = value
		return p, true
	}
	m.set(key, value)
	return nil, false
}

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.sync()
	if e, ok := m.get(key); ok && e.v == old {
		e.v = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.sync()
	if e, ok := m.get(key); ok && e.v == old {
		m.del(key)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.sync()
	for _, e := range m.ord {
		e.live = false
	}
	m.m, m.ord, m.dead = nil, nil, 0
}

func (m *Map) Range(f func(key, value any) bool) {
	m.sync()
	snap := append([]*mapEnt(nil), m.ord...)
	if sim.S != nil {
		for i := len(snap) - 1; i > 0; i-- {
			j := sim.Pick("maporder", i+1)
			snap[i], snap[j] = snap[j], snap[i]
		}
	}
	seen := map[any]bool{}
	for _, e := range snap {
		sim.Prim(sim.KSyncMap)
		if seen[e.k] {
			continue
		}
		cur, ok := m.get(e.k)
		if !ok {
			continue
		}
		if cur != e && sim.Pick("rangenew", 2) == 0 {
			continue // deleted and stored again during the walk
		}
		seen[e.k] = true
		sim.Acquire(&m.vc)
		if !f(cur.k, cur.v) {
			return
		}
	}
	// keys stored during the walk may be visited as well
	if sim.S != nil && sim.Pick("rangenew", 2) == 1 {
		for _, e := range append([]*mapEnt(nil), m.ord...) {
			sim.Prim(sim.KSyncMap)
			if !e.live || seen[e.k] {
				continue
			}
			wasIn := false
			for _, x := range snap {
				if x == e {
					wasIn = true
					break
				}
			}
			if wasIn {
				continue
			}
			seen[e.k] = true
			if !f(e.k, e.v) {
				return
			}
		}
	}
}
