package scen

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"net/http"
	"time"

	snet "github.com/donnie4w/gofer/verifsim/shadow/net"
	"github.com/donnie4w/gofer/verifsim/sim"
	"github.com/donnie4w/gofer/websocket"
)

// wsFrame is one websocket frame as seen on the wire.
type wsFrame struct {
	op   byte
	data []byte
}

// wsParse reads one frame; masked says whether it must be.
func wsParse(r io.Reader) (f wsFrame, err error) {
	var h [14]byte
	if _, err = io.ReadFull(r, h[:2]); err != nil {
		return
	}
	if h[0]&0xf0 != 0x80 {
		return f, fmt.Errorf("malformed: first byte %#x", h[0])
	}
	f.op = h[0] & 15
	n := uint64(h[1] & 0x7f)
	switch n {
	case 126:
		if _, err = io.ReadFull(r, h[2:4]); err != nil {
			return f, io.ErrUnexpectedEOF
		}
		n = uint64(binary.BigEndian.Uint16(h[2:]))
	case 127:
		if _, err = io.ReadFull(r, h[2:10]); err != nil {
			return f, io.ErrUnexpectedEOF
		}
		n = binary.BigEndian.Uint64(h[2:])
	}
	if h[1]&0x80 == 0 {
		return f, fmt.Errorf("malformed: frame from the client is not masked")
	}
	if n > 1<<20 {
		return f, fmt.Errorf("malformed: frame of %d bytes", n)
	}
	var key [4]byte
	if _, err = io.ReadFull(r, key[:]); err != nil {
		return f, io.ErrUnexpectedEOF
	}
	f.data = make([]byte, n)
	if _, err = io.ReadFull(r, f.data); err != nil {
		return f, io.ErrUnexpectedEOF
	}
	for i := range f.data {
		f.data[i] ^= key[i&3]
	}
	return f, nil
}

func wsEncode(op byte, data []byte) []byte {
	b := []byte{0x80 | op}
	switch n := len(data); {
	case n <= 125:
		b = append(b, byte(n))
	case n < 65536:
		b = append(b, 126, byte(n>>8), byte(n))
	default:
		b = append(b, 127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	return append(b, data...)
}

func wsBody(id, n int64) []byte {
	b := pat(id, max(n, 0))
	if n >= 2 {
		b[0], b[1] = byte(id>>8), byte(id)
	} else if n == 1 {
		b[0] = byte(id)
	}
	if n >= 2 && id%3 == 1 { // text
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
		b[0], b[1] = byte('a'+id/26%26), byte('a'+id%26)
	}
	return b
}

// wsPeer is the scripted server.
type wsPeer struct {
	p         *Prog
	ops       []Op
	conn      *snet.SimConn
	got       []wsFrame
	bad       string
	msgs      [][]byte // whole messages sent
	torn      []byte   // payload of a frame cut short
	hasTorn   bool
	pings     [][]byte
	ended     bool // the server finished its side
	rst       bool
	eof       bool // the client's side ended
	handshook bool
	writing   bool
	wq        sim.WaitQ
	deaf      sim.WaitQ // waits until the server ends the connection
}

func (s *wsPeer) handshake() bool {
	br := bufio.NewReader(s.conn)
	switch s.p.G("hs") {
	case 4:
		s.conn.Close()
		return false
	case 6:
		s.conn.Reset()
		s.rst = true
		return false
	}
	req, err := http.ReadRequest(br)
	if err != nil {
		s.conn.Close()
		return false
	}
	h := sha1.Sum([]byte(req.Header.Get("Sec-Websocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	acc := base64.StdEncoding.EncodeToString(h[:])
	status := "101 Switching Protocols"
	switch s.p.G("hs") {
	case 1:
		status = "403 Forbidden"
	case 2:
		acc = base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{7}, 20))
	case 3:
		s.conn.Write([]byte("SSH-2.0-garbage\r\n\r\n"))
		return false
	case 5: // never answers
		io.Copy(io.Discard, br)
		s.conn.Close()
		return false
	case 7: // ends in the middle of the answer
		s.conn.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: webso"))
		s.conn.Close()
		return false
	}
	if req.Method != "GET" || req.URL.Path != "/chat" || req.Header.Get("Upgrade") != "websocket" {
		s.bad = "the upgrade request is malformed"
	}
	s.conn.Write([]byte("HTTP/1.1 " + status + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acc + "\r\n\r\n"))
	if s.p.G("hs") != 0 {
		s.conn.Close()
		return false
	}
	s.handshook = true
	s.conn.Window(int(s.p.G("win")))
	sim.Spawn("server-script", s.script)
	for k := int64(0); ; k++ {
		if d := s.p.G("deaf"); d > 0 && k == s.p.G("deafat") {
			sim.Probe("deaf-server")
			if d != deafEver {
				sleepMS(d)
			} else if !s.ended {
				s.deaf.Wait("a server that has stopped reading")
			}
		}
		sleepMS(s.p.G("rpause"))
		f, err := wsParse(br)
		if err != nil {
			if err != io.EOF && err != io.ErrUnexpectedEOF && s.bad == "" && len(err.Error()) > 9 && err.Error()[:9] == "malformed" {
				s.bad = err.Error()
			}
			break
		}
		s.got = append(s.got, f)
		if f.op == 8 && !s.ended {
			s.finish()
		}
	}
	s.eof = true
	s.conn.Close()
	return true
}

func (s *wsPeer) finish() {
	s.ended = true
	s.deaf.WakeAll()
	s.put(wsEncode(8, []byte{3, 232}))
	s.conn.CloseWrite()
}

// put writes one frame at a time.
func (s *wsPeer) put(b []byte) error {
	for s.writing {
		s.wq.Wait("the server's write lock")
	}
	s.writing = true
	_, err := s.conn.Write(b)
	s.writing = false
	s.wq.WakeAll()
	return err
}

func (s *wsPeer) write(b []byte) bool {
	if s.ended || s.conn.IsClosed() {
		return false
	}
	return s.put(b) == nil
}

func (s *wsPeer) script() {
	for _, o := range s.ops {
		if s.ended {
			return
		}
		switch o.K {
		case "msg", "text":
			op := byte(2)
			if o.K == "text" {
				op = 1
			}
			d := wsBody(o.G(0), o.G(1))
			if s.write(wsEncode(op, d)) {
				s.msgs = append(s.msgs, d)
			}
		case "ping":
			d := wsBody(o.G(0), o.G(1)%126)
			if s.write(wsEncode(9, d)) {
				s.pings = append(s.pings, d)
			}
		case "pong":
			s.write(wsEncode(10, nil))
		case "sleep":
			sleepMS(o.G(1))
		case "close":
			if !s.conn.IsClosed() {
				s.finish()
			}
		case "fin":
			s.ended = true
			s.conn.CloseWrite()
			s.deaf.WakeAll()
		case "half":
			d := wsBody(o.G(0), max(o.G(1), 2))
			b := wsEncode(2, d)
			k := len(b) - 1 - int(o.G(2))%(len(b)-1)
			if s.ended || s.conn.IsClosed() {
				return
			}
			s.ended, s.hasTorn, s.torn = true, true, d
			s.deaf.WakeAll()
			s.put(b[:k])
			s.conn.CloseWrite()
		case "rst":
			s.rst, s.ended = true, true
			s.conn.Reset()
		}
	}
}

const deafEver = 1 << 30 // the server reads no more until it ends the connection

type wsSend struct {
	data     []byte
	inv, ret int64
	err      error
}

func wsRun(p *Prog, life bool) {
	n := snet.TheNet()
	srv := &wsPeer{p: p, ops: p.T[0]}
	const addr = "srv:8080"
	if p.G("hs") != 8 {
		l, _ := snet.Listen("tcp", addr)
		sim.Spawn("server", func() {
			c, err := l.Accept()
			if err != nil {
				return
			}
			srv.conn = c.(*snet.SimConn)
			srv.handshake()
		})
	}
	n.P["frag"] = float64(p.G("frag")) / 100
	n.MaxDelay = p.G("delay")
	n.P["reset"] = float64(p.G("reset")) / 1000
	n.P["cut"] = float64(p.G("cut")) / 1000
	n.P["stall"] = float64(p.G("stall")) / 100
	n.P["hang"] = float64(p.G("hang")) / 100
	n.P["refuse"] = float64(p.G("refuse")) / 100
	lossy := p.G("reset") > 0 || p.G("cut") > 0
	only := func(c bool, class, f string, a ...any) { // a violation of the property being decided
		if c {
			sim.Fail(class, f, a...)
		}
	}

	var h *websocket.Handler
	var sends []*wsSend
	var recv [][]byte
	var recvCopy [][]byte
	var clock, opens, closes, errors, cbs, closeAt int64
	var clientClosed, blocked bool
	var block sim.WaitQ
	released := false
	tick := func() int64 { clock++; return clock }
	nid := int64(1000)
	send := func(c *websocket.Handler, ln int64) {
		nid++
		d := wsBody(nid, ln)
		w := &wsSend{data: append([]byte(nil), d...), inv: tick()}
		sends = append(sends, w)
		ended := clientClosed && closes > 0
		Must("Send", func() { w.err = c.Send(d) })
		w.ret = tick()
		only(life && ended && w.err == nil, "send-after-close", "Send succeeds after Close and OnClose")
		only(!life && !bytes.Equal(d, w.data), "content", "Send changed the caller's bytes")
		for i := range d {
			d[i] = 0xEE
		}
		logf("send #%d len %d -> %v", nid, ln, w.err)
	}
	closeIt := func(c *websocket.Handler) {
		if !clientClosed {
			clientClosed, closeAt = true, tick()
		}
		logf("close")
		Must("Close", func() { c.Close() })
		only(life && c.Error() == nil, "error-state", "Error() is nil after Close")
		var err error
		Must("Send", func() { err = c.Send([]byte("late")) })
		only(life && err == nil, "send-after-close", "Send succeeds after Close returned")
	}
	same := func(c *websocket.Handler) {
		cbs++
		only(life && (c == nil || h != nil && c != h), "handler", "a callback gets another handler than NewHandler returned")
		h = c
	}
	if p.G("timeout") == 0 && (p.G("cut") > 0 || p.G("hs") == 5 || p.G("hs") == 3) {
		p.P["timeout"] = 3000 // nothing else would end the opening handshake
	}
	cfg := &websocket.Config{Url: "ws://" + addr + "/chat", Origin: "http://origin/", TimeOut: time.Duration(p.G("timeout")) * time.Millisecond}
	switch p.G("url") {
	case 1:
		cfg.Url = "http://" + addr + "/chat"
	case 2:
		cfg.Url = "ws://%zz/"
	case 3:
		cfg.Origin = "::bad"
	case 4:
		cfg.Url, cfg.CertFiles = "wss://"+addr+"/chat", []string{"/no/such/cert.pem"}
	case 5:
		cfg.Url, cfg.CertBytes = "wss://"+addr+"/chat", [][]byte{[]byte("not a certificate")}
	case 6:
		cfg.Url = "wss://" + addr + "/chat"
	}
	nilcb := p.G("nilcb")
	if nilcb&1 == 0 {
		cfg.OnOpen = func(c *websocket.Handler) {
			same(c)
			opens++
			only(life && cbs > 1, "order", "OnOpen is not the first callback")
			switch p.G("onopen") {
			case 1:
				send(c, 5)
			case 2:
				closeIt(c)
			}
		}
	}
	if nilcb&2 == 0 {
		cfg.OnMessage = func(c *websocket.Handler, b []byte) {
			same(c)
			only(life && nilcb&1 == 0 && opens == 0, "order", "OnMessage before OnOpen")
			recv = append(recv, b)
			recvCopy = append(recvCopy, append([]byte(nil), b...))
			logf("message len %d", len(b))
			k := int64(len(recv))
			switch p.G("onmsg") {
			case 1:
				send(c, 6)
			case 2:
				if k == 2 {
					closeIt(c)
				}
			case 3:
				if k == 1 && !released {
					blocked = true
					block.Wait("a slow OnMessage callback")
					blocked = false
				}
			}
		}
	}
	if nilcb&4 == 0 {
		cfg.OnError = func(c *websocket.Handler, err error) {
			same(c)
			errors++
			logf("OnError %v", err)
			only(life && nilcb&1 == 0 && opens == 0, "order", "OnError before OnOpen")
			only(life && err == nil, "nil-error", "OnError is called with a nil error")
			only(life && errors > 1, "twice", "OnError is called twice")
		}
	}
	if nilcb&8 == 0 {
		cfg.OnClose = func(c *websocket.Handler) {
			same(c)
			closes++
			logf("OnClose")
			only(life && nilcb&1 == 0 && opens == 0, "order", "OnClose before OnOpen")
			only(life && closes > 1, "twice", "OnClose is called twice")
			only(life && c.Error() == nil, "error-state", "Error() is nil in OnClose")
			var err error
			Must("Send", func() { err = c.Send([]byte("late")) })
			only(life && err == nil, "send-after-close", "Send succeeds in OnClose")
		}
	}
	t0 := sim.Now()
	var wh *websocket.Handler
	var err error
	Must("NewHandler", func() { wh, err = websocket.NewHandler(cfg) })
	took := sim.Now() - t0
	logf("NewHandler %v after %d us", err, took/1000)
	if life && cfg.TimeOut > 0 && took > int64(cfg.TimeOut)+50*ms {
		sim.Fail("timeout", "NewHandler with TimeOut %d ms returned after %d ms", p.G("timeout"), took/1e6)
	}
	good := p.G("hs") == 0 && (p.G("url") == 0 || p.G("url") == 6)
	if err != nil {
		sim.Probe("open-failed")
		only(life && wh != nil, "open", "NewHandler returns a handler and an error")
		netFault := lossy || p.G("hang") > 0 || p.G("refuse") > 0 || p.G("stall") > 0 || hasOp(p.T[0], "rst")
		only(life && good && !netFault, "open", "NewHandler fails although the server completes the handshake: %v", err)
		released = true
		sim.WaitIdle(200_000 * ms)
		only(life && cbs > 0, "callback", "%d callbacks ran although NewHandler failed", cbs)
		for _, c := range n.Conns {
			only(life && !c.IsClosed(), "leak", "NewHandler failed but left its connection open")
		}
		only(life && p.G("url") >= 1 && p.G("url") <= 5 && n.Dials > 0, "open", "NewHandler connected although its configuration is invalid")
		if life {
			for _, t := range sim.Live() {
				if t.Name != "server" && t.Name != "server-script" {
					sim.Fail("leak", "NewHandler failed but left a goroutine behind (%s)", t.Why())
				}
			}
		}
		return
	}
	only(life && !good, "open", "NewHandler succeeds although the handshake cannot have (mode %d)", p.G("hs"))
	only(wh == nil, "open", "NewHandler returns neither handler nor error")
	if h == nil {
		h = wh
	}
	only(life && h != wh, "handler", "a callback gets another handler than NewHandler returned")
	only(life && nilcb&1 == 0 && opens != 1, "open", "OnOpen ran %d times when NewHandler returned", opens)
	h = wh
	var ts []*sim.Task
	for i := 1; i < len(p.T); i++ {
		ops := p.T[i]
		ts = append(ts, sim.Spawn(fmt.Sprint("client", i), func() {
			for _, o := range ops {
				switch o.K {
				case "send":
					send(wh, o.G(1))
				case "sleep":
					sleepMS(o.G(1))
				case "close":
					closeIt(wh)
				}
			}
		}))
	}
	if p.G("deaf") != deafEver { // else Send may wait until the connection ends
		sim.Join(ts...)
	}
	sim.WaitIdle(10_000_000 * ms)
	disturbed := lossy && (n.Conns[0].IsClosed() || true) || srv.rst
	// ---- what must have arrived by now
	gotMsgs := func(all bool) {
		used := make([]bool, len(srv.msgs))
	next:
		for i, b := range recv {
			if !bytes.Equal(b, recvCopy[i]) {
				sim.Fail("content", "the bytes given to OnMessage changed later")
			}
			for j, m := range srv.msgs {
				if !used[j] && bytes.Equal(m, b) {
					used[j] = true
					continue next
				}
			}
			if srv.hasTorn && bytes.HasPrefix(srv.torn, b) {
				sim.Fail("torn-message", "the connection ended inside a message of %d bytes; OnMessage got its first %d bytes", len(srv.torn), len(b))
			}
			if lossy || srv.rst { // the message being written when the connection broke
				for _, o := range srv.ops {
					if m := wsBody(o.G(0), o.G(1)); (o.K == "msg" || o.K == "text") && bytes.Equal(m, b) {
						continue next
					}
				}
			}
			sim.Fail("content", "OnMessage got %d bytes that the server did not send as a message (or twice)", len(b))
		}
		for j, m := range srv.msgs {
			if all && !used[j] {
				sim.Fail("lost", "OnMessage never got message %d (%d bytes) of the server", j, len(m))
			}
			if used[j] {
				sim.Probe("message-delivered")
			}
		}
	}
	wire := func() {
		c := n.Conns[0]
		b := c.Sent
		if k := bytes.Index(b, []byte("\r\n\r\n")); k >= 0 {
			b = b[k+4:]
		}
		r := bytes.NewReader(b)
		var fs []wsFrame
		for {
			f, err := wsParse(r)
			if err == io.EOF {
				break
			}
			if err != nil {
				if lossy || srv.rst || p.G("win") > 0 && (clientClosed || srv.ended) {
					break
				}
				sim.Fail("frame", "what the client put on the wire is not a sequence of whole frames: %v", err)
			}
			fs = append(fs, f)
		}
		wsMatch(fs, sends, true, 0, "on the wire")
		if srv.bad != "" {
			sim.Fail("frame", "the server cannot read the client: %s", srv.bad)
		}
		all := !disturbed && (!clientClosed || len(srv.ops) == 0) && !hasOp(srv.ops, "close")
		wsMatch(srv.got, sends, all, closeAt, "at the server")
		if all && !srv.ended && !clientClosed {
			var pongs [][]byte
			for _, f := range srv.got {
				if f.op == 10 {
					pongs = append(pongs, f.data)
				}
			}
			if len(pongs) != len(srv.pings) {
				sim.Fail("ping", "%d of %d pings were answered", len(pongs), len(srv.pings))
			}
			for i := range pongs {
				if !bytes.Equal(pongs[i], srv.pings[i]) {
					sim.Fail("ping", "the answer to ping %d has other content", i)
				}
				sim.Probe("pong")
			}
		}
	}
	if !life {
		if nilcb&2 == 0 {
			gotMsgs(!disturbed && !clientClosed)
		}
		wire()
	}
	if life {
		if !clientClosed && !disturbed && !srv.ended {
			if closes > 0 || errors > 0 || wh.Error() != nil {
				sim.Fail("premature", "the connection is up but OnClose ran %d and OnError %d times, Error() = %v", closes, errors, wh.Error())
			}
		}
		if nilcb&8 == 0 && (clientClosed || srv.ended && (srv.rst || !lossy)) && closes != 1 {
			sim.Fail("no-close", "the connection has ended but OnClose ran %d times", closes)
		}
	}
	if blocked {
		sim.Probe("slow-callback")
	}
	if closes == 0 || nilcb&8 != 0 {
		if p.G("end") == 0 && p.G("deaf") != deafEver && !srv.ended && !disturbed && !clientClosed {
			srv.finish()
			sim.WaitIdle(10_000_000 * ms)
		} else {
			closeIt(wh)
			sim.WaitIdle(10_000_000 * ms)
		}
	}
	released = true
	block.WakeAll()
	sim.Join(ts...)
	sim.WaitIdle(10_000_000 * ms)
	if !life {
		wire()
		return
	}
	if nilcb&8 == 0 && closes != 1 {
		sim.Fail("no-close", "OnClose ran %d times although the connection has ended", closes)
	}
	if nilcb&4 == 0 && errors != 1 {
		sim.Fail("no-error", "OnError ran %d times although the connection has ended", errors)
	}
	if wh.Error() == nil {
		sim.Fail("error-state", "Error() is nil although the connection has ended")
	}
	if !n.Conns[0].IsClosed() {
		sim.Fail("leak", "the connection has ended but its socket is still open")
	}
	closeIt(wh)
	closeIt(wh)
	sim.WaitIdle(10_000_000 * ms)
	if closes > 1 || errors > 1 {
		sim.Fail("twice", "closing again ran OnClose or OnError again")
	}
	for _, t := range sim.Live() {
		if t.Name != "server" && t.Name != "server-script" {
			sim.Fail("leak", "the connection has ended but a goroutine is left behind (%s)", t.Why())
		}
	}
	sim.Probe("lifecycle-complete")
}

func hasOp(ops []Op, k string) bool {
	for _, o := range ops {
		if o.K == k {
			return true
		}
	}
	return false
}

// wsMatch checks that the data frames are whole payloads of distinct Sends in
// an order consistent with real time; all: every successful Send (that returned
// before the client began to close) is there.
func wsMatch(fs []wsFrame, sends []*wsSend, all bool, before int64, where string) {
	var order []*wsSend
	used := map[*wsSend]bool{}
next:
	for _, f := range fs {
		if f.op >= 8 {
			continue
		}
		if f.op != 2 {
			sim.Fail("frame", "%s: a payload is sent with opcode %d", where, f.op)
		}
		// among equal (empty) payloads prefer one that has to be there, and then a successful one
		for pass := 0; pass < 3; pass++ {
			for _, w := range sends {
				if !used[w] && bytes.Equal(w.data, f.data) && (pass == 2 || w.err == nil && w.ret > 0 && (pass == 1 || before == 0 || w.ret < before)) {
					used[w] = true
					order = append(order, w)
					continue next
				}
			}
		}
		sim.Fail("content", "%s: a message of %d bytes that nobody sent, or sent once only", where, len(f.data))
	}
	for i, a := range order {
		for _, b := range order[i+1:] {
			if len(a.data) > 0 && len(b.data) > 0 && b.ret > 0 && b.ret < a.inv {
				sim.Fail("order", "%s: a message sent after another's Send had returned precedes it", where)
			}
		}
	}
	for _, w := range sends {
		if w.ret > 0 && w.err == nil && all && !used[w] && (before == 0 || w.ret < before) {
			sim.Fail("lost", "%s: a message of %d bytes whose Send returned nil is missing", where, len(w.data))
		}
	}
}

func init() {
	gen := func(r *R, life bool) *Prog {
		p := &Prog{P: map[string]int64{"end": int64(r.N(2)), "frag": r.Of(0, 0, 20, 60), "delay": r.Of(0, 0, 3*ms, 40*ms), "url": r.Of(0, 0, 0, 0, 0, 6)}}
		n := int64(0)
		ln := func() int64 {
			if r.P(0.004) {
				return r.Of(65535, 65536, 70000)
			}
			if r.P(0.0003) {
				p.P["frag"] = 0
				return r.Of(131073, 300_000)
			}
			if r.P(0.15) {
				return r.Of(0, 1, 124, 125, 126, 127, 1000, 4096)
			}
			return r.Of(2, 3, 10, 40, 0)
		}
		fault := r.N(6)
		switch {
		case fault == 0:
			p.P["reset"] = r.Of(5, 30, 100)
		case fault == 1:
			p.P["cut"] = r.Of(5, 30, 100)
		case fault == 2:
			p.P["stall"] = r.Of(5, 30)
		}
		if fault >= 2 && r.P(0.15) {
			p.P["win"] = r.Of(16, 200, 1000, 5000)
			p.P["rpause"] = r.Of(0, 0, 1, 100)
			if r.P(0.5) {
				p.P["deaf"], p.P["deafat"] = r.Of(1000, 10_000, 300_000), int64(r.N(4))
				if life && r.P(0.7) {
					p.P["deaf"] = deafEver
				}
			}
		}
		p.P["onopen"] = int64(r.W(3, 1, 1))
		p.P["onmsg"] = int64(r.W(4, 1, 1, 1))
		if r.P(0.2) {
			p.P["nilcb"] = int64(r.N(16))
		}
		if r.P(0.5) {
			p.P["timeout"] = r.Of(200, 3000)
		}
		if life {
			if r.P(0.25) {
				p.P["hs"] = r.In(1, 8)
				if p.P["hs"] == 5 || p.P["hs"] == 3 {
					p.P["timeout"] = r.Of(200, 3000)
				}
			}
			if r.P(0.1) {
				p.P["url"] = r.In(1, 5)
			}
			if r.P(0.1) {
				p.P[[]string{"hang", "refuse"}[r.N(2)]] = 100
				p.P["timeout"] = r.Of(200, 3000)
			}
			if r.P(0.3) {
				p.P["onopen"] = 2
			}
			if p.P["deaf"] == deafEver && p.P["onopen"] == 1 {
				p.P["onopen"] = 0
			}
		}
		w := []int{6, 2, 2, 1, 2, 1, 1, 1, 1}
		if !life {
			w = []int{8, 3, 2, 1, 2, 0, 0, 0, 0}
			if r.P(0.3) {
				w[5], w[6] = 1, 1
			}
			if r.P(0.05) {
				w[7] = 1
			}
			if r.P(0.1) {
				w[8] = 1
			}
		} else {
			w[7] = 0
		}
		var srv []Op
		ns := r.N(7)
		idle, idleC := r.P(0.15), r.P(0.1)
		long := r.P(0.01)
		if long {
			ns = 20 + r.N(40)
		}
		for i := 0; i < ns; i++ {
			n++
			k := []string{"msg", "text", "ping", "pong", "sleep", "close", "fin", "half", "rst"}[r.W(w...)]
			srv = append(srv, Op{K: k, A: []int64{n, ln(), int64(r.N(1000))}})
			if k == "sleep" {
				srv[i].A[1] = r.Of(1, 10, 300)
				if idle && r.P(0.7) {
					srv[i].A[1], idle = r.Of(5000, 61_000, 600_000, 3600_000), false
				}
			}
		}
		p.T = [][]Op{srv}
		nt, no := 1+r.N(3), 4
		if long || r.P(0.01) {
			nt, no = 1+r.N(9), 12
		}
		cl := 0.1
		if life {
			cl = 0.25
		} else if r.P(0.5) {
			cl = 0
			if p.P["onopen"] == 2 {
				p.P["onopen"] = 0
			}
			if p.P["onmsg"] == 2 {
				p.P["onmsg"] = 0
			}
		}
		for i := 0; i < nt; i++ {
			var l []Op
			for j, m := 0, 1+r.N(no); j < m; j++ {
				switch {
				case r.P(cl):
					l = append(l, Op{K: "close"})
				case r.P(0.2):
					d := r.Of(1, 10, 300)
					if idleC && r.P(0.5) {
						d = r.Of(5000, 61_000, 600_000, 3600_000, 86400_000)
					}
					l = append(l, Op{K: "sleep", A: []int64{0, d}})
				default:
					l = append(l, Op{K: "send", A: []int64{0, ln()}})
				}
			}
			p.T = append(p.T, l)
		}
		return p
	}
	real := []string{"websocket", "golang.org/x/net/websocket", "bufio, net/http request/response parser as shipped"}
	stub := []string{"TCP (ordered byte streams with segmentation, delay, stall, reset, silent path death, half-close)", "TLS (clear text)", "scripted websocket server", "mutex, timers, randomness"}
	Reg(&Scenario{ID: "C27", Title: "websocket messages are delivered whole and exactly once", Quick: 240000, StallMax: 7, HardMax: 20000000, SoftMax: 4000000, StepNS: 1000,
		Rule: "one Handler against a scripted server: 1-3 tasks x 1-4 sends of 0-70000 bytes (rarely 300000), 0-6 server messages/pings/close/FIN/RST, pauses of 1 ms to a day, callbacks that send, close or block, segmentation, delays, stalls, resets and silently dying paths, small send windows with a server that reads slowly or pauses; wire bytes, server's and client's received messages compared with what was sent",
		Real: real, Stub: stub, Keep: []string{"url", "timeout", "delay", "win", "deaf", "deafat", "rpause"}, Gen: func(r *R) *Prog { return gen(r, false) }, Run: func(p *Prog) { wsRun(p, false) }})
	Reg(&Scenario{ID: "C28", Title: "websocket lifecycle", Quick: 450000, HardMax: 20000000, SoftMax: 4000000, StepNS: 1000, NoStall: true,
		Rule: "the same, the server possibly never reading again, with eight failing handshakes, invalid configurations, refused and hanging connections, Close from every place; callbacks counted and ordered, errors, timeouts, leaked sockets and goroutines checked",
		Real: real, Stub: stub, Keep: []string{"url", "hs", "timeout", "delay", "hang", "refuse", "win", "deaf", "deafat", "rpause"}, Gen: func(r *R) *Prog { return gen(r, true) }, Run: func(p *Prog) { wsRun(p, true) }})
}
