package scen

import (
	"fmt"

	"github.com/donnie4w/gofer/pool/gopool"
	ssync "github.com/donnie4w/gofer/verifsim/shadow/sync"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// pool program ops: go(id, work, sleep ms, kind, wait ms before) with kind 0 plain,
// 1 panics, 2 submits one more (id+1000), 3 barrier, 4 waits for Go to have returned, 5 closes the pool; off(on, ms), close(ms).
func poolRun(p *Prog, mode string) {
	limit := max(p.G("min"), p.G("max"))
	var g *gopool.GoPool
	if p.G("queue") == 0 {
		g = gopool.NewPool(p.G("min"), p.G("max"))
	} else {
		g = gopool.NewPoolWithFuncLimit(p.G("min"), p.G("max"), int(p.G("queue")))
	}
	ran := map[int64]int{}
	want := map[int64]bool{}
	running := int64(0)
	barrier := int64(0)
	for _, t := range p.T {
		for _, o := range t {
			if o.K == "go" && o.G(3) == 3 {
				barrier++
			}
		}
	}
	barrier = min(barrier, limit)
	arrived := int64(0)
	meet := &ssync.WaitGroup{}
	meet.Add(int(barrier))
	started := &ssync.WaitGroup{} // panicking functions that must have begun before Close
	np := 0
	if mode == "close" {
		for _, t := range p.T {
			for _, o := range t {
				if o.K == "go" && o.G(3) == 1 {
					np++
				}
			}
		}
		started.Add(np)
	}
	closed := false
	var submit func(o Op)
	submit = func(o Op) {
		id := o.G(0)
		if want[id] {
			return // a shrunk program may name one function twice
		}
		want[id] = true
		back := &ssync.WaitGroup{}
		back.Add(1)
		Must("Go", func() {
			g.Go(func() {
				ran[id]++
				if ran[id] > 1 {
					sim.Fail("ran-twice", "function %d was executed %d times", id, ran[id])
				}
				if mode == "bound" {
					running++
					if running > limit {
						sim.Fail("over-limit", "%d functions run at once, limit %d", running, limit)
					}
				}
				work(o.G(1))
				sleepMS(o.G(2))
				switch o.G(3) {
				case 2:
					submit(Op{K: "go", A: []int64{id + 1000, 1, 0, 0, 0}})
				case 3:
					if arrived < barrier {
						arrived++
						meet.Done()
						meet.Wait()
					}
				case 4:
					back.Wait()
				case 5:
					closed = true
					Must("Close", func() { g.Close() })
				}
				if mode == "bound" {
					running--
				}
				if o.G(3) == 1 {
					if mode == "close" {
						started.Done()
						work(o.G(1))
						sleepMS(o.G(2))
					}
					panic(fmt.Sprint("function ", id, " fails"))
				}
			})
		})
		back.Done()
	}
	Tasks(p, func(ti int, ops []Op) {
		for _, o := range ops {
			switch o.K {
			case "go":
				sleepMS(o.G(4))
				submit(o)
			case "off":
				sleepMS(o.G(1))
				g.TurnOff(o.G(0) == 1)
			case "close":
				sleepMS(o.G(0))
				started.Wait()
				closed = true
				Must("Close", func() { g.Close() })
			}
		}
	})
	sim.WaitIdle(100 * 86400_000 * ms)
	for _, t := range p.T {
		for _, o := range t {
			if o.K == "go" && ran[o.G(0)] == 0 {
				sim.Fail("lost", "function %d was accepted but never executed (pool closed: %v)", o.G(0), closed)
			}
			if o.K == "go" && o.G(3) == 2 && ran[o.G(0)+1000] == 0 {
				sim.Fail("lost", "function %d, submitted by function %d, was never executed", o.G(0)+1000, o.G(0))
			}
		}
	}
	if n := g.NumUnExecu(); n != 0 {
		sim.Fail("count", "NumUnExecu()=%d with every function executed", n)
	}
	// the pool still works
	done := map[int64]bool{}
	for i := int64(0); i < limit+1; i++ {
		i := i
		Must("Go", func() { g.Go(func() { done[i] = true }) })
	}
	sim.WaitIdle(3600_000 * ms)
	if len(done) != int(limit+1) {
		sim.Fail("lost", "only %d of %d later functions were executed", len(done), limit+1)
	}
	g.Close()
	sim.WaitIdle(60_000 * ms)
}

func genPool(r *R, mode string) *Prog {
	p := &Prog{P: map[string]int64{"min": r.In(0, 3), "max": r.In(0, 4), "queue": r.Of(0, 0, 1, 2, 3)}}
	if p.P["min"]+p.P["max"] == 0 {
		p.P["max"] = 1
	}
	nt, no := 1+r.N(4), 5
	if r.N(40) == 0 {
		p.P["min"], p.P["max"], p.P["queue"] = r.In(0, 12), r.In(1, 20), r.Of(0, 4, 9)
		nt, no = 1+r.N(8), 12
	}
	if r.N(500) == 0 {
		nt, no = 1, 300
	}
	id := int64(0)
	idle := r.P(0.15)
	limit := max(p.G("min"), p.G("max"))
	barriers := int64(0)
	if mode == "bound" && r.P(0.5) {
		barriers = limit
	}
	p.T = genOps(r, nt, no, func(t, i int) Op {
		id++
		kind := int64(0)
		if r.P(0.25) {
			kind = r.Of(1, 2)
			if p.G("queue") > 0 { // a function that submits to a full queue may wait for itself
				kind = 1
			}
			if mode == "bound" && kind == 2 && barriers > 0 {
				kind = 0
			}
		}
		if kind == 0 && r.P(0.15) {
			kind = 4
		}
		if mode == "close" && kind == 1 && id > 2 {
			kind = 0
		}
		o := Op{K: "go", A: []int64{id, int64(r.N(4)), r.Of(0, 0, 0, 1, 5), kind, r.Of(0, 0, 0, 0, 1, 5, 20)}}
		if idle && r.P(0.3) {
			o.A[2+2*r.N(2)] = r.Of(100, 1000, 5001, 10_001, 60_001, 3600_001, 86400_000)
		}
		return o
	})
	for i := int64(0); i < barriers; i++ {
		id++
		t := r.N(len(p.T))
		p.T[t] = append(p.T[t], Op{K: "go", A: []int64{id, 0, 0, 3, 0}})
	}
	if mode == "once" && r.P(0.4) {
		var l []Op
		for i := 0; i < 1+r.N(3); i++ {
			l = append(l, Op{K: "off", A: []int64{int64(r.N(2)), r.Of(0, 0, 1, 4)}})
			if idle && r.P(0.3) {
				l[i].A[1] = r.Of(1000, 60_002, 3600_002)
			}
		}
		// panics are contained by the pool's workers only, not while it is turned off
		for _, t := range p.T {
			for i := range t {
				if t[i].G(3) == 1 {
					t[i].A[3] = 0
				}
			}
		}
		p.T = append(p.T, l)
	}
	if mode == "close" && r.P(0.25) { // closed by one of its functions
		for _, t := range p.T {
			for i := range t {
				switch {
				case t[i].G(3) == 1: // they may have to begin after the Close
					t[i].A[3] = 0
				case r.P(0.2):
					t[i].A[3] = 5
				}
			}
		}
	} else if mode == "close" {
		for i := 0; i < 1+r.N(2); i++ {
			p.T = append(p.T, []Op{{K: "close", A: []int64{r.Of(0, 0, 0, 1, 2, 5, 8)}}})
			if idle && r.P(0.3) {
				p.T[len(p.T)-1][0].A[0] = r.Of(1000, 60_002, 3600_002)
			}
		}
	}
	return p
}

func init() {
	rule := "1-4 submitters x 1-5 functions (plain, sleeping, panicking, submitting more, waiting for what their submitter does next; pauses and running times of 0 to a day) on a pool of min 0-3, max 0-4, queue 1-3 or default (one run in 40: up to 8 submitters x 12, min up to 12, max up to 20; one in 500: up to 300 functions); "
	real := []string{"pool/gopool"}
	stub := []string{"goroutines, channels, mutex, atomics, context"}
	mins := map[string]int64{"min": 0, "max": 1, "queue": 0}
	Reg(&Scenario{ID: "C14", Title: "gopool executes every function exactly once", Twin: 10, Quick: 180000, HardMax: 1500000, SoftMax: 60000,
		Rule: rule + "with TurnOff toggled at random; every function executed exactly once by the time nothing can run, and the pool keeps working",
		Real: real, Stub: stub, Min: mins, Keep: []string{"min", "max"},
		Gen: func(r *R) *Prog { return genPool(r, "once") }, Run: func(p *Prog) { poolRun(p, "once") }})
	Reg(&Scenario{ID: "C15", Title: "gopool concurrency bound and utilisation", Twin: 10, Quick: 150000, HardMax: 1500000, SoftMax: 60000,
		Rule: rule + "running functions counted; in half of the runs `max` functions wait for each other, which needs them all to run at once",
		Real: real, Stub: stub, Min: mins, Keep: []string{"min", "max"},
		Gen: func(r *R) *Prog { return genPool(r, "bound") }, Run: func(p *Prog) { poolRun(p, "bound") }})
	Reg(&Scenario{ID: "C16", Title: "gopool Close drains", Twin: 10, Quick: 195000, HardMax: 1500000, SoftMax: 60000,
		Rule: rule + "with one or two Close calls at random times, in a quarter of the runs by functions of the pool; nothing accepted before, during or after Close is lost or repeated; functions already running may panic",
		Real: real, Stub: stub, Min: mins, Keep: []string{"min", "max"},
		Gen: func(r *R) *Prog { return genPool(r, "close") }, Run: func(p *Prog) { poolRun(p, "close") }})
}
