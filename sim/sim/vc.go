package sim

import "unsafe"

// VC is a vector clock (task id -> count). Only used to tell whether two
// accesses to a builtin map are ordered; an unordered pair is what the Go
// runtime turns into "fatal error: concurrent map ...".
type VC []uint32

func (v VC) Get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) Set(i int, x uint32) VC {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i] = x
	return v
}

func (v VC) Copy() VC { return append(VC(nil), v...) }

func (v VC) Join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (s *Sim) tick(t *Task) { t.vc = t.vc.Set(t.ID, t.vc.Get(t.ID)+1) }

func (s *Sim) vcFork(parent *Task, id int) VC {
	if !s.cfg.VCOn {
		return nil
	}
	v := parent.vc.Copy().Set(id, 1)
	s.tick(parent)
	return v
}

func (s *Sim) joinVC(w, t *Task) {
	if s.cfg.VCOn {
		w.vc = w.vc.Join(t.vc)
	}
}

// Acquire/Release order the current task with a synchronisation object.
func Acquire(v *VC) {
	s := S
	if s == nil || !s.cfg.VCOn || s.Cur == nil || s.inTimer != nil || v == nil {
		return
	}
	s.Cur.vc = s.Cur.vc.Join(*v)
}

func Release(v *VC) {
	s := S
	if s == nil || !s.cfg.VCOn || v == nil {
		return
	}
	if s.inTimer != nil {
		*v = (*v).Join(s.inTimer.vc)
		return
	}
	if s.Cur == nil {
		return
	}
	*v = (*v).Join(s.Cur.vc)
	s.tick(s.Cur)
}

type mapState struct {
	keep  any
	reads VC
	wTask int
	wClk  uint32
	wGen  int
	wSite int
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
}

func mapAccess(p uintptr, keep any, site int, write bool) {
	s := S
	if s == nil || s.Cur == nil || !s.cfg.VCOn || s.inTimer != nil || p == 0 {
		return
	}
	st := s.maps[p]
	if st == nil {
		st = &mapState{keep: keep, wTask: -1}
		s.maps[p] = st
	}
	t := s.Cur
	if st.wTask >= 0 && st.wTask != t.ID && t.vc.Get(st.wTask) < st.wClk {
		what := "read and map write"
		if write {
			what = "map writes"
		}
		panic(Fatal{"concurrent map " + what + " at " + SiteName(site) + " and " + SiteName(st.wSite)})
	}
	if write {
		for i, c := range st.reads {
			if c > 0 && i != t.ID && t.vc.Get(i) < c {
				panic(Fatal{"concurrent map read and map write at " + SiteName(site)})
			}
		}
		st.wTask, st.wClk, st.wSite = t.ID, t.vc.Get(t.ID), site
		st.reads = nil
	} else {
		st.reads = st.reads.Set(t.ID, t.vc.Get(t.ID))
	}
}

// SiteNames is installed by the driver.
var SiteNames []string

func SiteName(i int) string {
	if i >= 0 && i < len(SiteNames) {
		return SiteNames[i]
	}
	return "?"
}
