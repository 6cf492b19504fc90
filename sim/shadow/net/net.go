// Package net is the simulated network: stream connections with delay,
// fragmentation, stalls, resets and cuts, and the host's interface list.
package net

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/verifsim/sim"
)

// Net holds the knobs of the current run.
type Net struct {
	ln       map[string]*SimListener
	P        map[string]float64 // net.refuse net.reset net.cut net.stall net.frag net.hang
	MaxDelay int64              // per segment, ns
	Conns    []*SimConn         // client ends, in dial order
	port     int
	Dials    int
}

func TheNet() *Net {
	if sim.S == nil {
		panic(sim.Fatal{Msg: "sim: network access outside a run"})
	}
	if n, ok := sim.S.Data["net"].(*Net); ok {
		return n
	}
	n := &Net{ln: map[string]*SimListener{}, P: map[string]float64{}, port: 40000}
	sim.S.Data["net"] = n
	return n
}

func (n *Net) fault(kind string) bool { return sim.Choose("net."+kind, 2, n.P[kind]) == 1 }

type segment struct {
	at   int64
	data []byte
	fin  bool
	rst  bool
}

// half is one direction of a connection.
type half struct {
	segs []segment
	buf  []byte
	eof  bool
	rst  bool
	cut  bool
	last int64
	q    sim.WaitQ
	wq   sim.WaitQ // a sender waiting for room
	opp  *half
	sent int64
	win  int // bytes under way and unread before the sender has to wait (0: no limit)
}

func (h *half) inflight() (n int) {
	for _, s := range h.segs {
		n += len(s.data)
	}
	return n + len(h.buf)
}

func (h *half) settle() {
	for len(h.segs) > 0 && h.segs[0].at <= sim.Now() {
		s := h.segs[0]
		h.segs = h.segs[1:]
		switch {
		case s.rst:
			h.rst = true
			h.buf = nil
		case s.fin:
			h.eof = true
		default:
			h.buf = append(h.buf, s.data...)
		}
	}
}

func (h *half) push(s segment, delay int64) {
	at := sim.Now() + delay
	if at < h.last {
		at = h.last
	}
	h.last = at
	s.at = at
	h.segs = append(h.segs, s)
	sim.AddTimer(at-sim.Now(), func() {
		h.q.WakeAll()
		if s.rst {
			h.opp.wq.WakeAll()
		}
	})
}

// SimConn is one end of a simulated stream connection.
type SimConn struct {
	in, out  *half
	closed   bool
	local    string
	remote   string
	n        *Net
	rdl, wdl int64 // deadlines (virtual), 0 = none
	rtmr     *sim.Timer
	wtmr     *sim.Timer
	peer     *SimConn
	reset    bool
	wdone    bool   // CloseWrite was called
	Sent     []byte // everything accepted from the application
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *SimConn) Read(b []byte) (int, error) {
	sim.Prim(sim.KIO)
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if c.rdl != 0 && sim.Now() >= c.rdl {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		c.in.settle()
		if c.reset || c.in.rst {
			return 0, opErr("read", syscall.ECONNRESET)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			k := min(len(b), len(c.in.buf))
			if k > 1 && c.n.P["frag"] > 0 && sim.Pick("net.frag?", 1000) < int(1000*c.n.P["frag"]) {
				k = 1 + sim.Pick("net.frag", k)
				if k > len(c.in.buf) {
					k = len(c.in.buf)
				}
			}
			copy(b, c.in.buf[:k])
			c.in.buf = c.in.buf[k:]
			c.in.wq.WakeAll()
			return k, nil
		}
		if c.in.eof {
			return 0, io.EOF
		}
		c.in.q.Wait("network read")
	}
}

func (c *SimConn) delay() int64 {
	d := int64(1000)
	if c.n.MaxDelay > 0 {
		d += int64(sim.Pick("net.delay", int(c.n.MaxDelay)))
	}
	if c.n.fault("stall") {
		d += int64(1+sim.Pick("net.stalln", 5)) * 1_000_000_000
	}
	return d
}

func (c *SimConn) doReset() {
	c.reset = true
	c.in.rst = true
	c.in.buf = nil
	c.in.q.WakeAll()
	c.out.wq.WakeAll()
	c.out.push(segment{rst: true}, 1000)
}

func (c *SimConn) Write(b []byte) (int, error) {
	sim.Prim(sim.KIO)
	if err := c.writable(); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.n.fault("reset") {
		k := sim.Pick("net.resetn", len(b)+1)
		c.send(b[:k])
		c.doReset()
		return k, opErr("write", syscall.ECONNRESET)
	}
	if c.n.fault("cut") {
		// the path dies silently: whatever follows never arrives
		c.out.cut = true
	}
	n := 0
	for w := c.out.win; w > 0 && !c.out.cut && !c.peer.closed; {
		room := w - c.out.inflight()
		if room >= len(b)-n {
			break
		}
		if room > 0 {
			c.send(b[n : n+room])
			n += room
			continue
		}
		c.out.wq.Wait("network write: the receiver does not read")
		if err := c.writable(); err != nil {
			return n, err
		}
	}
	c.send(b[n:])
	sim.Prim(sim.KIO)
	return len(b), nil
}

func (c *SimConn) writable() error {
	switch c.in.settle(); {
	case c.closed:
		return opErr("write", net.ErrClosed)
	case c.wdl != 0 && sim.Now() >= c.wdl:
		return opErr("write", os.ErrDeadlineExceeded)
	case c.reset || c.in.rst || c.wdone:
		return opErr("write", syscall.EPIPE)
	}
	return nil
}

func (c *SimConn) send(b []byte) {
	c.Sent = append(c.Sent, b...)
	c.out.sent += int64(len(b))
	if c.out.cut || (c.peer != nil && c.peer.closed) {
		if c.peer != nil && c.peer.closed && !c.out.cut {
			// the other side has gone: its kernel answers with a reset
			c.in.push(segment{rst: true}, 1000)
		}
		return
	}
	for len(b) > 0 {
		k := len(b)
		if k > 1 && c.n.P["frag"] > 0 && sim.Pick("net.seg?", 1000) < int(1000*c.n.P["frag"]) {
			k = 1 + sim.Pick("net.seg", k)
			if k > len(b) {
				k = len(b)
			}
		}
		c.out.push(segment{data: append([]byte(nil), b[:k]...)}, c.delay())
		b = b[k:]
	}
}

func (c *SimConn) Close() error {
	sim.Prim(sim.KIO)
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.in.q.WakeAll()
	c.in.wq.WakeAll()
	c.out.wq.WakeAll()
	if !c.out.cut && !c.reset {
		if len(c.in.buf) > 0 {
			c.out.push(segment{rst: true}, c.delay())
		} else if !c.wdone {
			c.out.push(segment{fin: true}, c.delay())
		}
	}
	return nil
}

// CloseWrite half-closes.
func (c *SimConn) CloseWrite() error {
	if !c.out.cut && !c.wdone {
		c.out.push(segment{fin: true}, c.delay())
	}
	c.wdone = true
	return nil
}

// Reset aborts the connection from this end (RST).
func (c *SimConn) Reset() {
	if !c.closed {
		c.doReset()
		c.closed = true
	}
}

// Window limits what each side may send before the other has read it.
func (c *SimConn) Window(n int) { c.in.win, c.out.win = n, n }

func (c *SimConn) IsClosed() bool { return c.closed }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *SimConn) LocalAddr() net.Addr  { return addr(c.local) }
func (c *SimConn) RemoteAddr() net.Addr { return addr(c.remote) }

func rel(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(epoch))
	if d <= 0 {
		d = 1
	}
	return d
}

var epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

func (c *SimConn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *SimConn) SetReadDeadline(t time.Time) error {
	sim.Prim(sim.KIO)
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rtmr.Stop()
	c.rdl = rel(t)
	if c.rdl != 0 {
		c.rtmr = sim.AddTimer(c.rdl-sim.Now(), func() { c.in.q.WakeAll() })
	}
	return nil
}

func (c *SimConn) SetWriteDeadline(t time.Time) error {
	sim.Prim(sim.KIO)
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wtmr.Stop()
	c.wdl = rel(t)
	if c.wdl != 0 {
		c.wtmr = sim.AddTimer(c.wdl-sim.Now(), func() { c.out.wq.WakeAll() })
	}
	return nil
}

// SimListener is a simulated listening socket.
type SimListener struct {
	addr   string
	queue  []*SimConn
	q      sim.WaitQ
	closed bool
}

func (l *SimListener) Accept() (net.Conn, error) {
	sim.Prim(sim.KIO)
	for len(l.queue) == 0 {
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		l.q.Wait("accept")
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}
func (l *SimListener) Close() error {
	l.closed = true
	delete(TheNet().ln, l.addr)
	l.q.WakeAll()
	return nil
}
func (l *SimListener) Addr() net.Addr { return addr(l.addr) }

func Listen(network, address string) (net.Listener, error) {
	n := TheNet()
	if n.ln[address] != nil {
		return nil, opErr("listen", syscall.EADDRINUSE)
	}
	l := &SimListener{addr: address}
	n.ln[address] = l
	return l, nil
}

func (n *Net) dial(ctx context.Context, address string, timeout int64) (net.Conn, error) {
	sim.Prim(sim.KIO)
	n.Dials++
	deadline := int64(0)
	if timeout > 0 {
		deadline = sim.Now() + timeout
	}
	if ctx != nil {
		if dl, ok := ctx.Deadline(); ok {
			if d := rel(dl); deadline == 0 || d < deadline {
				deadline = d
			}
		}
		if ctx.Err() != nil {
			return nil, opErr("dial", ctx.Err())
		}
	}
	if n.fault("hang") {
		// the handshake is lost: only a deadline ends the attempt
		w := int64(120_000_000_000)
		if deadline > 0 {
			w = deadline - sim.Now()
		}
		sim.Sleep(w)
		return nil, opErr("dial", os.ErrDeadlineExceeded)
	}
	sim.Sleep(2000 + int64(sim.Pick("net.syn", int(n.MaxDelay)+1)))
	if deadline > 0 && sim.Now() >= deadline {
		return nil, opErr("dial", os.ErrDeadlineExceeded)
	}
	l := n.ln[address]
	if l == nil || n.fault("refuse") {
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	n.port++
	a, b := &half{}, &half{}
	a.opp, b.opp = b, a
	lo := "10.0.0.1:" + strconv.Itoa(n.port)
	c := &SimConn{in: a, out: b, local: lo, remote: address, n: n}
	s := &SimConn{in: b, out: a, local: address, remote: lo, n: n}
	c.peer, s.peer = s, c
	n.Conns = append(n.Conns, c)
	l.queue = append(l.queue, s)
	l.q.WakeAll()
	return c, nil
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Resolver      *net.Resolver
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(nil, network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if d == nil {
		return TheNet().dial(ctx, address, 0)
	}
	t := int64(d.Timeout)
	if !d.Deadline.IsZero() {
		if r := rel(d.Deadline) - sim.Now(); t == 0 || r < t {
			t = max(r, 1)
		}
	}
	return TheNet().dial(ctx, address, t)
}

func Dial(network, address string) (net.Conn, error) { return TheNet().dial(nil, address, 0) }
func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return TheNet().dial(nil, address, int64(timeout))
}

// Interfaces lists the host's network interfaces (the scenario may hide them
// or give every host the same address).
func Interfaces() ([]net.Interface, error) {
	if sim.S == nil {
		return nil, errors.New("no interfaces")
	}
	sim.Prim(sim.KIO)
	if v, ok := sim.S.Data["interfaces"].([]net.Interface); ok {
		if len(v) == 0 {
			return nil, errors.New("no interfaces")
		}
		return v, nil
	}
	return []net.Interface{
		{Index: 1, Name: "lo", Flags: net.FlagLoopback | net.FlagUp},
		{Index: 2, Name: "eth0", Flags: net.FlagUp, HardwareAddr: net.HardwareAddr{2, 66, 172, 17, 0, 2}},
	}, nil
}
