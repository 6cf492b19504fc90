package scen

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"maps"
	"net/http"
	"strings"

	"github.com/donnie4w/gofer/httpclient"
	snet "github.com/donnie4w/gofer/verifsim/shadow/net"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// how the server answers
const (
	haLen = iota
	haChunked
	haEOF
	haSlow
	haError // status 500 with a body
	haContinue
	haNotFound
	haMoved // 307, 308: the same request to another place
	haOther // 301, 302, 303: the answer is to be fetched from another place
	haGood  // ---- everything below cannot succeed
	haShort
	haChunkCut
	haReset
	haNothing
	haGarbage
	haHeadCut
	haEnd
)

type httpReq struct {
	body   []byte
	header http.Header
	method string
	query  string
	host   string
}

type httpSrv struct {
	got  map[string][]*httpReq
	bad  string
	body func(id int64, n int64) []byte
	base string
	pace int64 // ms between the pieces of a slow answer
}

func (s *httpSrv) handle(c *snet.SimConn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for k := 0; k < 4; k++ {
		req, err := http.ReadRequest(br)
		if err != nil {
			if k > 0 && err != io.EOF && !c.IsClosed() {
				s.bad = "a second request that cannot be read"
			}
			return
		}
		var id, mode, n int64
		fmt.Sscanf(req.URL.Path, "/r/%d/%d/%d", &id, &mode, &n)
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		s.got[req.URL.Path] = append(s.got[req.URL.Path], &httpReq{b, req.Header, req.Method, req.URL.RawQuery, req.Host})
		out := s.body(id, n)
		cl := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(out))
		switch mode {
		case haLen:
			c.Write(append([]byte(cl), out...))
		case haMoved, haOther:
			code := 307 + id%2
			if mode == haOther {
				code = 301 + id%3
			}
			to := fmt.Sprintf("/r/%d/%d/%d", id, haLen, n)
			if req.URL.RawQuery != "" {
				to += "?" + req.URL.RawQuery
			}
			if id%4 > 1 {
				to = s.base + to
			}
			out = out[:len(out)/3]
			c.Write(append([]byte(fmt.Sprintf("HTTP/1.1 %d Moved\r\nLocation: %s\r\nContent-Length: %d\r\n\r\n", code, to, len(out))), out...))
		case haError:
			c.Write(append([]byte(strings.Replace(cl, "200 OK", "500 Oops", 1)), out...))
		case haNotFound:
			c.Write(append([]byte(strings.Replace(cl, "200 OK", "404 Not Found", 1)), out...))
		case haContinue:
			c.Write([]byte("HTTP/1.1 100 Continue\r\n\r\n"))
			c.Write(append([]byte(cl), out...))
		case haSlow:
			sleepMS(s.pace)
			c.Write([]byte(cl[:9]))
			sleepMS(300 + s.pace)
			c.Write([]byte(cl[9:]))
			for len(out) > 0 {
				m := min(len(out), 1+len(out)/3)
				c.Write(out[:m])
				out = out[m:]
				sleepMS(700 + s.pace)
			}
		case haEOF:
			c.Write(append([]byte("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n"), out...))
			c.Close()
			return
		case haChunked, haChunkCut:
			c.Write([]byte("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"))
			for i := 0; len(out) > 0; i++ {
				m := min(len(out), 1+len(out)/2)
				if mode == haChunkCut && i == 1 {
					c.Write([]byte(fmt.Sprintf("%x\r\n", m)))
					c.Write(out[:m/2])
					c.Close()
					return
				}
				c.Write([]byte(fmt.Sprintf("%x\r\n%s\r\n", m, out[:m])))
				out = out[m:]
			}
			if mode == haChunkCut {
				c.Close()
				return
			}
			c.Write([]byte("0\r\n\r\n"))
		case haShort:
			c.Write([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(out)+1+int(id%7))))
			c.Write(out)
			c.Close()
			return
		case haReset:
			c.Write(append([]byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(out)+3)), out...))
			c.Reset()
			return
		case haNothing:
			return
		case haGarbage:
			c.Write([]byte("this is not HTTP\r\n\r\n"))
			return
		case haHeadCut:
			c.Write([]byte(cl[:int(id*5)%(len(cl)-3)+1]))
			return
		}
		if req.Close {
			return
		}
	}
}

func init() {
	Reg(&Scenario{
		ID: "C29", Title: "HTTP posts", Quick: 180000, HardMax: 10000000, SoftMax: 500000, StepNS: 1000, StallMax: 7,
		Rule: "1-4 tasks x 1-3 Post/Post2/Post3 calls with bodies of 0-5000 bytes, headers and cookies against a scripted server: complete answers (length, chunked, EOF, slow with up to 12 minutes between the pieces, 4xx/5xx, 100-continue, redirects), answers cut short in five ways, garbage, resets, refused connections, segmentation, delay",
		Real: []string{"httpclient", "net/http Client (redirects, cookies), request and response parsing as shipped"},
		Stub: []string{"net/http.Transport (one connection per request or kept alive as configured, over the simulated network)", "TCP", "TLS (clear text)", "scripted HTTP server"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"frag": r.Of(0, 0, 20, 60), "delay": r.Of(0, 0, 3*ms, 40*ms), "tls": r.Of(0, 0, 1)}}
			if r.P(0.3) {
				p.P[[]string{"reset", "stall", "refuse"}[r.N(3)]] = r.Of(20, 100, 300)
			}
			n := int64(0)
			nt, no := 1+r.N(4), 3
			if r.P(0.01) {
				nt, no = 10, 4
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				n++
				mode := int64(r.N(haGood))
				if r.P(0.4) {
					mode = r.In(haGood+1, haEnd-1)
				}
				return Op{K: []string{"post", "post2", "post3"}[r.N(3)], A: []int64{n, mode, r.Of(0, 1, 10, 300, 5000), r.Of(0, 0, 1, 20, 5000), int64(r.N(128))}}
			})
			p.P["pace"] = r.Of(0, 0, 0, 0, 5000, 31_000, 61_000, 700_000)
			if r.P(0.02) {
				p.T[0][0].A[2+r.N(2)] = r.Of(32768, 65536, 70000, 200000)
			}
			if r.P(0.001) {
				p.T[0][0].A[2+r.N(2)] = r.Of(500_000, 1_100_000, 2_500_000, 5_000_000)
				p.P["frag"] = 0
			}
			return p
		},
		Run: func(p *Prog) {
			n := snet.TheNet()
			srv := &httpSrv{got: map[string][]*httpReq{}, body: func(id, n int64) []byte { return pat(id+500, n) }, pace: p.G("pace")}
			host := "web:80"
			scheme := "http"
			if p.G("tls") == 1 {
				host, scheme = "web:443", "https"
			}
			srv.base = scheme + "://web"
			l, _ := snet.Listen("tcp", host)
			sim.Spawn("server", func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					sim.Spawn("server-conn", func() { srv.handle(c.(*snet.SimConn)) })
				}
			})
			n.P["frag"] = float64(p.G("frag")) / 100
			n.MaxDelay = p.G("delay")
			n.P["reset"] = float64(p.G("reset")) / 1000
			n.P["stall"] = float64(p.G("stall")) / 1000
			n.P["refuse"] = float64(p.G("refuse")) / 1000
			lossy := p.G("reset") > 0 || p.G("refuse") > 0
			var keep Keep
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					id, mode, rn, qn, opt := o.G(0), o.G(1), o.G(2), o.G(3), o.G(4)
					path := fmt.Sprintf("/r/%d/%d/%d", id, mode, rn)
					url := scheme + "://web" + path
					query := ""
					if opt&16 != 0 {
						query = fmt.Sprintf("a=%d&b=%%20x&c", id)
						url += "?" + query
					}
					body := pat(id, qn)
					if len(body) == 0 && opt&8 != 0 {
						body = nil
					}
					orig := append([]byte(nil), body...)
					hdr := map[string]string{"X-Id": fmt.Sprint("v", id), "content-type": "application/x-test"}
					var ck *http.Cookie
					if opt&1 == 0 {
						ck = &http.Cookie{Name: "sid", Value: fmt.Sprint("c", id)}
					}
					if opt&32 != 0 {
						hdr["X-Empty"], hdr["X-Long"], hdr["User-Agent"] = "", strings.Repeat("h", 3000), "ua"
					}
					if opt&2 == 0 {
						hdr = nil
					}
					given := maps.Clone(hdr)
					var got []byte
					var err error
					conns := len(n.Conns)
					Must(o.K, func() {
						switch o.K {
						case "post":
							got, err = httpclient.Post(body, url)
						case "post2":
							got, err = httpclient.Post2(body, opt&4 == 0, url)
						case "post3":
							got, err = httpclient.Post3(body, opt&4 == 0, url, hdr, ck)
						}
					})
					_ = conns
					keep.Add(o.K, got)
					logf("%s %s -> %d bytes %v", o.K, path, len(got), err)
					if !bytes.Equal(body, orig) || !maps.Equal(hdr, given) || ck != nil && (ck.Name != "sid" || ck.Value != fmt.Sprint("c", id)) {
						sim.Fail("argument", "%s changed its arguments", o.K)
					}
					rs := srv.got[path]
					if len(rs) > 1 {
						sim.Fail("repeated", "the server received the request %d times", len(rs))
					}
					if err == nil {
						sim.Probe("answered")
						if mode > haGood {
							sim.Fail("incomplete", "%s returns %d bytes without an error although the answer was cut short (mode %d)", o.K, len(got), mode)
						}
						if !bytes.Equal(got, srv.body(id, rn)) {
							sim.Fail("content", "%s returns %d bytes, not the %d the server answered", o.K, len(got), rn)
						}
						if len(rs) != 1 {
							sim.Fail("lost", "%s succeeds but the server received no such request", o.K)
						}
						if mode == haMoved || mode == haOther {
							rs2 := srv.got[fmt.Sprintf("/r/%d/%d/%d", id, haLen, rn)]
							if len(rs2) != 1 {
								sim.Fail("lost", "%s succeeds but the server received %d requests at the new place", o.K, len(rs2))
							}
							if mode == haMoved {
								rs = []*httpReq{rs[0], rs2[0]}
								sim.Probe("moved")
							} else if rs2[0].method != "GET" || len(rs2[0].body) > 0 {
								sim.Fail("request", "the server received %s with %d bytes at the new place, not a GET", rs2[0].method, len(rs2[0].body))
							}
						}
					} else {
						sim.Probe("failed")
						if len(got) > 0 {
							sim.Fail("content", "%s returns an error together with %d bytes", o.K, len(got))
						}
						if mode < haGood && !lossy {
							sim.Fail("error", "%s fails although the server answered completely: %v", o.K, err)
						}
					}
					for _, q := range rs {
						if q.method != "POST" || !bytes.Equal(q.body, orig) {
							sim.Fail("request", "the server received %s with %d bytes, not the POST of %d bytes", q.method, len(q.body), len(orig))
						}
						want, wantCk := "", ""
						if o.K == "post3" && hdr != nil {
							want = hdr["X-Id"]
						}
						if o.K == "post3" && ck != nil {
							wantCk = "sid=" + ck.Value
						}
						if q.header.Get("X-Id") != want || want != "" && q.header.Get("Content-Type") != "application/x-test" {
							sim.Fail("request", "the server received header X-Id %q, given %q", q.header.Get("X-Id"), want)
						}
						if o.K == "post3" && opt&32 != 0 && hdr != nil && (q.header.Get("X-Long") != hdr["X-Long"] || q.header.Get("User-Agent") != "ua" || len(q.header["X-Empty"]) != 1) {
							sim.Fail("request", "the server did not receive the headers given: %.100v", q.header)
						}
						if q.query != query || q.host != "web" {
							sim.Fail("request", "the server received a request for host %q, query %q", q.host, q.query)
						}
						if q.header.Get("Cookie") != wantCk {
							sim.Fail("request", "the server received cookie %q, given %q", q.header.Get("Cookie"), wantCk)
						}
					}
				}
			})
			sim.WaitIdle(10_000_000 * ms)
			keep.Check()
			for path, rs := range srv.got {
				if len(rs) > 1 {
					sim.Fail("repeated", "the server received %s %d times", path, len(rs))
				}
			}
			if srv.bad != "" {
				sim.Fail("request", "the server received %s", srv.bad)
			}
			for _, c := range n.Conns {
				if !c.IsClosed() {
					sim.Fail("leak", "all calls have returned but a connection is still open")
				}
			}
			for _, t := range sim.Live() {
				if !strings.HasPrefix(t.Name, "server") {
					sim.Fail("leak", "all calls have returned but a goroutine is left behind (%s)", t.Why())
				}
			}
		},
	})
}
