// Package context: cancellation driven by simulated channels and clock.
package context

import (
	"context"
	"errors"
	"time"

	stime "github.com/donnie4w/gofer/verifsim/shadow/time"
	"github.com/donnie4w/gofer/verifsim/sim"
)

type CancelFunc = context.CancelFunc
type CancelCauseFunc = context.CancelCauseFunc

type ctx struct {
	context.Context // parent
	done            chan struct{}
	err             error
	cause           error
	children        []*ctx
	dl              time.Time
	hasDL           bool
	after           []func()
	timer           *sim.Timer
	vc              sim.VC
}

type ctxKey struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	sim.Prim(sim.KTime)
	if c.err != nil {
		sim.Acquire(&c.vc)
	}
	return c.err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	sim.Release(&c.vc)
	c.err, c.cause = err, cause
	if sim.S != nil {
		sim.CloseNow(c.done)
	} else {
		close(c.done)
	}
	for _, f := range c.after {
		sim.SpawnFromTimer("ctxafter", f)
	}
	c.after = nil
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if parent.Done() != nil {
		// a foreign context: follow it with a task
		sim.Spawn("ctxwatch", func() {
			switch sim.Select(0, false, sim.RecvCase(parent.Done()), sim.RecvCase((<-chan struct{})(c.done))) {
			case 0:
				c.cancel(parent.Err(), context.Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { sim.Prim(sim.KTime); c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { sim.Prim(sim.KTime); c.cancel(context.Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, CancelFunc) {
	c := newCtx(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		c.dl, c.hasDL = d, true
		if c.err == nil {
			c.timer = sim.AddTimer(int64(d.Sub(stime.Now())), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() { sim.Prim(sim.KTime); c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

func Cause(c context.Context) error {
	if x, ok := c.Value(ctxKey{}).(*ctx); ok {
		if x.err == nil {
			return nil
		}
		return x.cause
	}
	return context.Cause(c)
}

func AfterFunc(c context.Context, f func()) (stop func() bool) {
	x, ok := c.Value(ctxKey{}).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	if x.err != nil {
		sim.Go(f)
		return func() bool { return false }
	}
	live := true
	x.after = append(x.after, func() {
		if live {
			live = false
			f()
		}
	})
	return func() bool { l := live; live = false; return l }
}

var _ = errors.New
