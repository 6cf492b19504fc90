// Package sync is the simulated sync package.
package sync

import "github.com/donnie4w/gofer/verifsim/sim"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      sim.WaitQ
	vc     sim.VC
}

func (m *Mutex) Lock() {
	sim.Prim(sim.KMutex)
	for m.locked {
		m.q.Wait("mutex")
	}
	m.locked = true
	sim.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	sim.Prim(sim.KMutex)
	if m.locked {
		return false
	}
	m.locked = true
	sim.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	sim.Prim(sim.KUnlock)
	if !m.locked {
		panic(sim.Fatal{Msg: "sync: unlock of unlocked mutex"})
	}
	sim.Release(&m.vc)
	m.locked = false
	m.q.WakeAll()
}

type RWMutex struct {
	w        bool // held for writing
	r        int  // readers
	wWaiting int
	q        sim.WaitQ
	vcW, vcR sim.VC
}

func (m *RWMutex) Lock() {
	sim.Prim(sim.KMutex)
	if m.w || m.r > 0 {
		m.wWaiting++
		func() {
			defer func() { m.wWaiting-- }()
			for m.w || m.r > 0 {
				m.q.Wait("rwmutex (write)")
			}
		}()
	}
	m.w = true
	sim.Acquire(&m.vcW)
	sim.Acquire(&m.vcR)
}

func (m *RWMutex) TryLock() bool {
	sim.Prim(sim.KMutex)
	if m.w || m.r > 0 || m.wWaiting > 0 {
		return false
	}
	m.w = true
	sim.Acquire(&m.vcW)
	sim.Acquire(&m.vcR)
	return true
}

func (m *RWMutex) Unlock() {
	sim.Prim(sim.KUnlock)
	if !m.w {
		panic(sim.Fatal{Msg: "sync: Unlock of unlocked RWMutex"})
	}
	sim.Release(&m.vcW)
	m.w = false
	m.q.WakeAll()
}

// RLock waits behind waiting writers, as the real one does.
func (m *RWMutex) RLock() {
	sim.Prim(sim.KMutex)
	for m.w || m.wWaiting > 0 {
		m.q.Wait("rwmutex (read)")
		if !m.w {
			break // the writer that was ahead of us is done; later writers queue behind
		}
	}
	m.r++
	sim.Acquire(&m.vcW)
}

func (m *RWMutex) TryRLock() bool {
	sim.Prim(sim.KMutex)
	if m.w || m.wWaiting > 0 {
		return false
	}
	m.r++
	sim.Acquire(&m.vcW)
	return true
}

func (m *RWMutex) RUnlock() {
	sim.Prim(sim.KUnlock)
	if m.r <= 0 {
		panic(sim.Fatal{Msg: "sync: RUnlock of unlocked RWMutex"})
	}
	sim.Release(&m.vcR)
	m.r--
	if m.r == 0 {
		m.q.WakeAll()
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n  int
	q  sim.WaitQ
	vc sim.VC
}

func (w *WaitGroup) Add(d int) {
	sim.Prim(sim.KWG)
	if d < 0 {
		sim.Release(&w.vc)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sim.Prim(sim.KWG)
	for w.n > 0 {
		w.q.Wait("waitgroup")
		if w.n > 0 {
			continue
		}
	}
	sim.Acquire(&w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
	vc   sim.VC
}

func (o *Once) Do(f func()) {
	sim.Prim(sim.KOnce)
	if o.done {
		sim.Acquire(&o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			sim.Release(&o.vc)
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				p = sim.Rec(recover())
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type Cond struct {
	L Locker
	q []*ticket
}

type ticket struct {
	ok bool
	q  sim.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sim.Prim(sim.KCond)
	t := &ticket{}
	c.q = append(c.q, t)
	c.L.Unlock()
	for !t.ok {
		t.q.Wait("cond")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	sim.Prim(sim.KCond)
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		t.ok = true
		t.q.WakeAll()
	}
}

func (c *Cond) Broadcast() {
	sim.Prim(sim.KCond)
	for _, t := range c.q {
		t.ok = true
		t.q.WakeAll()
	}
	c.q = nil
}

// Pool hands out objects in an arbitrary order and may lose any of them.
type Pool struct {
	New   func() any
	items []any
	vc    sim.VC
}

func (p *Pool) Get() any {
	sim.Prim(sim.KPool)
	sim.Acquire(&p.vc)
	if n := len(p.items); n > 0 && sim.Choose("pool-miss", 2, 0.05) == 0 {
		i := n - 1
		if n > 1 && sim.Pick("pool", 4) == 0 {
			i = sim.Pick("pool", n)
		}
		x := p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sim.Prim(sim.KPool)
	sim.Release(&p.vc)
	if sim.Choose("pool-drop", 2, 0.02) != 0 {
		return
	}
	p.items = append(p.items, x)
}
