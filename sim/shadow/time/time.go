// Package time is the simulated clock.
package time

import (
	"errors"
	"time"

	"github.com/donnie4w/gofer/verifsim/sim"
)

// Epoch of the simulated wall clock.
var Epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

func Now() time.Time {
	if sim.S == nil {
		return Epoch
	}
	sim.Prim(sim.KTime)
	return Epoch.Add(time.Duration(sim.Now()) + time.Duration(WallSkew()))
}

// WallSkew is how far the wall clock was set away from the running clock.
func WallSkew() int64 {
	if v, ok := sim.S.Data["wallskew"].(int64); ok {
		return v
	}
	return 0
}

// LoadLocation finds no zone database when the run says so.
func LoadLocation(name string) (*time.Location, error) {
	if sim.S != nil && name != "" && name != "UTC" && name != "Local" {
		sim.Prim(sim.KIO)
		if p, ok := sim.S.Data["no-zones"].(float64); ok && sim.Choose("no-zones", 2, p) == 1 {
			return nil, errors.New("unknown time zone " + name)
		}
	}
	l, err := time.LoadLocation(name)
	if err != nil && name == "Asia/Shanghai" { // none on this machine
		l, err = time.FixedZone("CST", 8*3600), nil
	}
	return l, err
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) { sim.Sleep(int64(d)) }

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *sim.Timer
	f func()
	// a timer that was stopped or reset delivers no stale value (Go >= 1.23)
}

func (t *Timer) fire() {
	if t.f != nil {
		sim.SpawnFromTimer("timerfunc", t.f)
		return
	}
	sim.TrySend(t.c, Epoch.Add(time.Duration(sim.Now())))
}

func (t *Timer) start(d time.Duration) { t.t = sim.AddTimer(int64(d), t.fire) }

func (t *Timer) drain() bool {
	if t.c == nil {
		return false
	}
	select {
	case <-t.c:
		return true
	default:
		return false
	}
}

func (t *Timer) Stop() bool {
	sim.Prim(sim.KTime)
	a := t.t.Stop()
	return t.drain() || a
}

func (t *Timer) Reset(d time.Duration) bool {
	sim.Prim(sim.KTime)
	a := t.t.Stop()
	a = t.drain() || a
	t.start(d)
	return a
}

func NewTimer(d time.Duration) *Timer {
	sim.Prim(sim.KTime)
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	sim.Prim(sim.KTime)
	t := &Timer{f: f}
	t.start(d)
	return t
}

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *sim.Timer
	d time.Duration
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	sim.Prim(sim.KTime)
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.t = sim.AddTimer(int64(d), t.fire)
	return t
}

func (t *Ticker) fire() {
	sim.TrySend(t.c, Epoch.Add(time.Duration(sim.Now())))
	t.t = sim.AddTimer(int64(t.d), t.fire)
}

func (t *Ticker) Stop() { sim.Prim(sim.KTime); t.t.Stop() }

func (t *Ticker) Reset(d time.Duration) {
	sim.Prim(sim.KTime)
	t.t.Stop()
	t.d = d
	t.t = sim.AddTimer(int64(d), t.fire)
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
