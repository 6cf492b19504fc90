package sim

import (
	"fmt"
	"unsafe"
)

// Channels stay real Go channels: buffer and close state live in the real
// object; only blocking, waking and unbuffered hand-over are simulated.

type chanState struct {
	keep  any
	recvq []qent
	sendq []qent
	vc    VC
}

// waiter is one blocked operation or select.
type waiter struct {
	t    *Task
	done bool
	idx  int
}

type qent struct {
	w *waiter
	c Case
	i int
}

// Case is one arm of a select.
type Case interface {
	try() bool
	enqueue(w *waiter, i int)
	dequeue(w *waiter)
	isNil() bool
	woken()
	what() string
}

func recvPtr[T any](ch <-chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }
func sendPtr[T any](ch chan<- T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func stateOf(p uintptr, keep any) *chanState {
	c := S.chans[p]
	if c == nil {
		c = &chanState{keep: keep}
		S.chans[p] = c
	}
	return c
}

func (c *chanState) wakeRecv() {
	for _, e := range c.recvq {
		S.Ready(e.w.t)
	}
}

func (c *chanState) wakeSend() {
	for _, e := range c.sendq {
		S.Ready(e.w.t)
	}
}

func rmW(q []qent, w *waiter) []qent {
	out := q[:0]
	for _, x := range q {
		if x.w != w {
			out = append(out, x)
		}
	}
	for i := len(out); i < len(q); i++ {
		q[i] = qent{}
	}
	return out
}

// ---- receive

type RecvC[T any] struct {
	V  T
	Ok bool
	ch <-chan T
}

func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

func (c *RecvC[T]) isNil() bool    { return c.ch == nil }
func (c *RecvC[T]) what() string   { return "receive" }
func (c *RecvC[T]) st() *chanState { return stateOf(recvPtr(c.ch), c.ch) }
func (c *RecvC[T]) woken()         { Acquire(&c.st().vc) }

func (c *RecvC[T]) try() bool {
	st := c.st()
	if cap(c.ch) == 0 {
		n := 0
		for _, e := range st.sendq {
			if !e.w.done && e.w.t != S.Cur {
				n++
			}
		}
		if n > 0 {
			for _, e := range st.sendq {
				if e.w.done || e.w.t == S.Cur {
					continue
				}
				e.w.done, e.w.idx = true, e.i
				c.V, c.Ok = e.c.(*SendC[T]).v, true
				Acquire(&st.vc)
				Release(&st.vc)
				S.Ready(e.w.t)
				return true
			}
		}
	}
	select {
	case v, ok := <-c.ch:
		c.V, c.Ok = v, ok
		Acquire(&st.vc)
		if ok {
			Release(&st.vc)
			st.wakeSend()
		}
		return true
	default:
		return false
	}
}

func (c *RecvC[T]) enqueue(w *waiter, i int) {
	st := c.st()
	st.recvq = append(st.recvq, qent{w, c, i})
}

func (c *RecvC[T]) dequeue(w *waiter) { st := c.st(); st.recvq = rmW(st.recvq, w) }

// ---- send

type SendC[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }
}

func (c *SendC[T]) isNil() bool    { return c.ch == nil }
func (c *SendC[T]) what() string   { return "send" }
func (c *SendC[T]) st() *chanState { return stateOf(sendPtr(c.ch), c.ch) }
func (c *SendC[T]) woken()         { Acquire(&c.st().vc) }

func (c *SendC[T]) try() bool {
	st := c.st()
	if cap(c.ch) == 0 {
		select { // panics when closed, as it must
		case c.ch <- c.v:
			return true
		default:
		}
		for _, e := range st.recvq {
			if e.w.done || e.w.t == S.Cur {
				continue
			}
			e.w.done, e.w.idx = true, e.i
			rc := e.c.(*RecvC[T])
			rc.V, rc.Ok = c.v, true
			Release(&st.vc)
			S.Ready(e.w.t)
			return true
		}
		return false
	}
	select {
	case c.ch <- c.v:
		Acquire(&st.vc)
		Release(&st.vc)
		st.wakeRecv()
		return true
	default:
		return false
	}
}

func (c *SendC[T]) enqueue(w *waiter, i int) {
	st := c.st()
	Release(&st.vc)
	st.sendq = append(st.sendq, qent{w, c, i})
}

func (c *SendC[T]) dequeue(w *waiter) { st := c.st(); st.sendq = rmW(st.sendq, w) }

// ---- operations

func runSelect(site int, hasDefault bool, cases []Case) int {
	s := S
	Y(site)
	n := 0
	var live [8]int
	idx := live[:0]
	for i, c := range cases {
		if !c.isNil() {
			idx = append(idx, i)
			n++
		}
	}
	first := true
	for {
		if first || n > 1 {
			// random order among the ready ones, as the Go runtime does
			for i := n - 1; i > 0; i-- {
				j := Pick("select", i+1)
				idx[i], idx[j] = idx[j], idx[i]
			}
			first = false
		}
		for _, i := range idx {
			if cases[i].try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		w := &waiter{t: s.Cur}
		for _, i := range idx {
			cases[i].enqueue(w, i)
		}
		why := "select with no live case"
		if n == 1 {
			why = "chan " + cases[idx[0]].what()
		} else if n > 1 {
			why = "select"
		}
		if site >= 0 {
			why += " at " + SiteName(site)
		}
		s.block(why)
		for _, i := range idx {
			cases[i].dequeue(w)
		}
		if w.done {
			cases[w.idx].woken()
			return w.idx
		}
	}
}

func Select(site int, hasDefault bool, cases ...Case) int {
	s := S
	if s == nil || s.Cur == nil || s.inTimer != nil {
		for i, c := range cases {
			if !c.isNil() && S != nil && c.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic(Fatal{"sim: select would block outside a run"})
	}
	return runSelect(site, hasDefault, cases)
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	c := &RecvC[T]{ch: ch}
	if ch == nil {
		Park("receive from nil channel")
	}
	runSelect(pkRecv-primSites, false, []Case{c})
	return c.V, c.Ok
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if S == nil {
			ch <- v
			return
		}
		if ch == nil {
			Park("send to nil channel")
		}
		runSelect(pkSend-primSites, false, []Case{&SendC[T]{ch: ch, v: v}})
	}
}

// TrySend is a non-blocking send usable from timer callbacks and fakes.
func TrySend[T any](ch chan<- T, v T) bool {
	c := &SendC[T]{ch: ch, v: v}
	if S == nil {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	return c.try()
}

func Close[T any](ch chan<- T) {
	if S == nil || ch == nil {
		close(ch)
		return
	}
	yp(pkClose)
	CloseNow(ch)
}

// CloseNow closes without a scheduling point.
func CloseNow[T any](ch chan<- T) {
	st := stateOf(sendPtr(ch), ch)
	close(ch)
	Release(&st.vc)
	st.wakeRecv()
	st.wakeSend()
}

// ChanId is a scheduling point before len(ch)/cap(ch).
func ChanId[C any](site int, ch C) C {
	Y(site)
	return ch
}

var _ = fmt.Sprint
