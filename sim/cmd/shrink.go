package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/donnie4w/gofer/verifsim/scen"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// shrink minimises a failing run: first the program (tasks, operations,
// parameters, arguments; each candidate is searched afresh over a few
// schedules), then the schedule and fault decisions themselves.
func shrink(s *scen.Scenario, prop string, v *violation, deadline time.Time) *replayFile {
	rf := &replayFile{Property: prop, Class: v.Class, Message: v.Msg, Seed: v.Spec.Seed, Mode: "seed", Strategy: v.Spec.Strat, Program: v.Spec.Prog, Trace: v.Trace}
	if v.Class == "process-death" {
		rf.Shrink = "not shrunk (the run ends the process)"
		return rf
	}
	ops0, tried := v.Spec.Prog.Ops(), 0
	best := v.Spec
	bestTrace := v.Trace
	minOps := ops0
	search := func(p *scen.Prog, n int) bool {
		tried++
		for k := 0; k < n; k++ {
			if time.Now().After(deadline) {
				return false
			}
			r := runSpec{0, best.Seed, p, best.Strat}
			var tr *sim.Trace
			switch {
			case k == 0:
				tr = bestTrace
			case k == 1:
			default:
				r.Seed = sim.Mix(best.Seed, uint64(k)*7919+uint64(tried))
				if k%2 == 0 {
					r.Strat, _ = s.Strat(scen.NewR(r.Seed))
				}
			}
			o := exec1(s, r, tr, false)
			if c, m := scen.Class(&o); c == v.Class {
				best, bestTrace = r, o.Trace
				if tr != nil {
					bestTrace = tr
				}
				rf.Message = m
				return true
			}
		}
		return false
	}
	keep := map[string]bool{"second": true}
	for _, k := range s.Keep {
		keep[k] = true
	}
	half := time.Now().Add(time.Until(deadline) * 2 / 3)
	progress := true
	for progress && time.Now().Before(half) {
		progress = false
		// the neighbour, or else all but it
		if best.Prog.N != nil {
			q := best.Prog.Clone()
			q.N = nil
			if search(q, 60) {
				progress = true
			}
		}
		for part := 0; part < len(best.Prog.Parts()); part++ {
			cur := func() *scen.Prog { return best.Prog.Parts()[part] }
			clone := func() (q, qp *scen.Prog) {
				q = best.Prog.Clone()
				return q, q.Parts()[part]
			}
			// whole tasks
			for i := len(cur().T) - 1; i >= 0 && len(cur().T) > 1; i-- {
				if time.Now().After(half) {
					break
				}
				q, qp := clone()
				qp.T = append(qp.T[:i], qp.T[i+1:]...)
				if search(q, 60) {
					progress = true
				}
			}
			// operations
			for i := range cur().T {
				for sz := len(cur().T[i]); sz >= 1; sz /= 2 {
					for at := len(cur().T[i]) - sz; at >= 0; {
						if time.Now().After(half) {
							break
						}
						q, qp := clone()
						if at+sz > len(qp.T[i]) {
							at--
							continue
						}
						qp.T[i] = append(qp.T[i][:at], qp.T[i][at+sz:]...)
						if search(q, 40) {
							progress = true
							at -= sz
							if at < 0 && len(cur().T[i]) >= sz {
								at = 0
							}
						} else {
							at--
						}
						if len(cur().T[i]) < sz {
							break
						}
					}
				}
			}
			// parameters and arguments
			for k, x := range cur().P {
				lo := s.Min[k]
				if keep[k] || x <= lo {
					continue
				}
				for _, nv := range []int64{lo, (lo + x) / 2, x - 1} {
					if nv >= x || time.Now().After(half) {
						continue
					}
					q, qp := clone()
					qp.P[k] = nv
					if search(q, 25) {
						progress = true
						break
					}
				}
			}
		}
		if n := best.Prog.Ops(); n < minOps {
			minOps = n
		}
	}
	// schedule and faults
	cur := bestTrace
	run := func(t *sim.Trace) (bool, string) {
		o := exec1(s, best, t, false)
		c, m := scen.Class(&o)
		return c == v.Class, m
	}
	n0 := 0
	if cur != nil {
		n0 = traceLen(cur)
		if ok, m := run(cur); ok {
			rf.Mode = "trace"
			rf.Message = m
			cur = ddmin(cur, func(t *sim.Trace) bool {
				if time.Now().After(deadline) {
					return false
				}
				ok, m := run(t)
				if ok {
					rf.Message = m
				}
				return ok
			})
		}
	}
	rf.Program, rf.Seed, rf.Strategy = best.Prog, best.Seed, best.Strat
	rf.Trace = cur
	var tr *sim.Trace
	if rf.Mode == "trace" {
		tr = cur
	}
	o := exec1(s, best, tr, true)
	c, m := scen.Class(&o)
	if c == v.Class {
		rf.Message = m
	}
	rf.Steps = o.Steps
	rf.Log = o.Log
	if len(rf.Log) > 400 {
		rf.Log = rf.Log[len(rf.Log)-400:]
	}
	rf.Shrink = fmt.Sprintf("operations %d -> %d (%d candidate programs), schedule and fault decisions %d -> %d", ops0, best.Prog.Ops(), tried, n0, traceLen(cur))
	return rf
}

// selfTest (VERIF_SELFTEST=1) runs programs as the shrinker would make them:
// on a tree that holds the property these must be as quiet as the generated
// ones, or a minimised replay could blame the code for what the cut did.
var selfTest = os.Getenv("VERIF_SELFTEST") != ""

func reduced(s *scen.Scenario, p *scen.Prog, r *scen.R) *scen.Prog {
	p = p.Clone()
	if p.N != nil && r.N(2) == 0 {
		p.N = nil
	}
	keep := map[string]bool{"second": true}
	for _, k := range s.Keep {
		keep[k] = true
	}
	for _, q := range p.Parts() {
		if r.N(2) == 0 && len(q.T) > 1 {
			i := r.N(len(q.T))
			q.T = append(q.T[:i], q.T[i+1:]...)
		}
		for i := range q.T {
			if n := len(q.T[i]); n > 0 && r.N(2) == 0 {
				at := r.N(n)
				sz := 1 + r.N(n-at)
				q.T[i] = append(q.T[i][:at], q.T[i][at+sz:]...)
			}
		}
		var ks []string
		for k := range q.P {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			lo, x := s.Min[k], q.P[k]
			if keep[k] || x <= lo || r.N(3) > 0 {
				continue
			}
			q.P[k] = []int64{lo, (lo + x) / 2, x - 1}[r.N(3)]
		}
	}
	return p
}

func traceLen(t *sim.Trace) int {
	if t == nil {
		return 0
	}
	n := len(t.Sched)
	for _, l := range t.Env {
		n += len(l)
	}
	return n
}

type tent struct {
	kind string
	e    [2]int64
}

func flat(t *sim.Trace) []tent {
	var l []tent
	for _, e := range t.Sched {
		l = append(l, tent{"", e})
	}
	for _, k := range sortedKeys(t.Env) {
		for _, e := range t.Env[k] {
			l = append(l, tent{k, e})
		}
	}
	return l
}

func sortedKeys(m map[string][][2]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func build(l []tent) *sim.Trace {
	t := &sim.Trace{Sched: [][2]int64{}, Env: map[string][][2]int64{}}
	for _, e := range l {
		if e.kind == "" {
			t.Sched = append(t.Sched, e.e)
		} else {
			t.Env[e.kind] = append(t.Env[e.kind], e.e)
		}
	}
	return t
}

func ddmin(t *sim.Trace, fails func(*sim.Trace) bool) *sim.Trace {
	l := flat(t)
	if fails(build(nil)) {
		return build(nil)
	}
	n := 2
	for len(l) >= 1 && n <= 2*len(l) {
		sz := (len(l) + n - 1) / n
		if sz < 1 {
			sz = 1
		}
		done := false
		for i := 0; i < len(l); i += sz {
			e := min(i+sz, len(l))
			c := append(append([]tent(nil), l[:i]...), l[e:]...)
			if fails(build(c)) {
				l = c
				n = max(n-1, 2)
				done = true
				break
			}
		}
		if !done {
			if sz == 1 {
				break
			}
			n *= 2
		}
	}
	return build(l)
}
