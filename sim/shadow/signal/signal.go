// Package signal is the simulated os/signal.
package signal

import (
	"context"
	"os"

	sctx "github.com/donnie4w/gofer/verifsim/shadow/context"
	"github.com/donnie4w/gofer/verifsim/sim"
)

type handler struct {
	c    chan<- os.Signal
	all  bool
	sigs map[os.Signal]bool
	not  map[os.Signal]bool // reset since the channel asked for all
}

type state struct{ hs []*handler }

func st() *state {
	if sim.S == nil {
		panic(sim.Fatal{Msg: "sim: signal handling outside a run"})
	}
	s, ok := sim.S.Data["signals"].(*state)
	if !ok {
		s = &state{}
		sim.S.Data["signals"] = s
	}
	return s
}

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	sim.Prim(sim.KUser)
	s := st()
	var h *handler
	for _, x := range s.hs {
		if x.c == c {
			h = x
		}
	}
	if h == nil {
		h = &handler{c: c, sigs: map[os.Signal]bool{}, not: map[os.Signal]bool{}}
		s.hs = append(s.hs, h)
	}
	if len(sigs) == 0 {
		h.all, h.not = true, map[os.Signal]bool{}
	}
	for _, g := range sigs {
		h.sigs[g] = true
		delete(h.not, g)
	}
	sim.Prim(sim.KUser)
}

func Stop(c chan<- os.Signal) {
	sim.Prim(sim.KUser)
	s := st()
	for i, x := range s.hs {
		if x.c == c {
			s.hs = append(s.hs[:i:i], s.hs[i+1:]...)
			break
		}
	}
	sim.Prim(sim.KUser)
}

func Reset(sigs ...os.Signal) {
	sim.Prim(sim.KUser)
	s := st()
	if len(sigs) == 0 {
		s.hs = nil
		return
	}
	for _, h := range s.hs {
		for _, g := range sigs {
			delete(h.sigs, g)
			h.not[g] = true
		}
	}
}

func Ignore(sigs ...os.Signal) { Reset(sigs...) }

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	c, cancel := sctx.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	sim.Go(func() {
		switch i := sim.Select(0, false, sim.RecvCase(ch), sim.RecvCase(c.Done())); i {
		case 0:
			cancel()
		}
	})
	return c, context.CancelFunc(func() { cancel(); Stop(ch) })
}

// Deliver is the operating system delivering one signal to the process; it
// reports how many registered channels wanted it and how many took it.
func Deliver(sig os.Signal) (wanted, taken int) {
	sim.Prim(sim.KUser)
	for _, h := range append([]*handler(nil), st().hs...) {
		if (h.all || h.sigs[sig]) && !h.not[sig] {
			wanted++
			if sim.TrySend(h.c, sig) {
				taken++
			}
		}
	}
	return
}
