// Package http shadows the parts of net/http that open connections; requests
// are written to and responses parsed (by the real net/http parser) from the
// simulated network.
package http

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	sctx "github.com/donnie4w/gofer/verifsim/shadow/context"
	snet "github.com/donnie4w/gofer/verifsim/shadow/net"
	"github.com/donnie4w/gofer/verifsim/sim"
)

type Transport struct {
	Proxy                  func(*http.Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx context.Context, proxyURL *url.URL, connectReq *http.Request, connectRes *http.Response) error
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool

	idle map[string][]*pconn
}

type pconn struct {
	c  net.Conn
	br *bufio.Reader
}

func (t *Transport) CloseIdleConnections() {
	for _, l := range t.idle {
		for _, p := range l {
			p.c.Close()
		}
	}
	t.idle = nil
}

func (t *Transport) Clone() *Transport { c := *t; c.idle = nil; return &c }

func (t *Transport) dial(ctx context.Context, addr string) (net.Conn, error) {
	switch {
	case t.DialContext != nil:
		return t.DialContext(ctx, "tcp", addr)
	case t.Dial != nil:
		return t.Dial("tcp", addr)
	}
	return (&snet.Dialer{}).DialContext(ctx, "tcp", addr)
}

func (t *Transport) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.URL == nil || (req.URL.Scheme != "http" && req.URL.Scheme != "https") {
		return nil, errors.New("unsupported protocol scheme")
	}
	if req.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	addr := req.URL.Host
	if req.URL.Port() == "" {
		addr += ":80"
		if req.URL.Scheme == "https" {
			addr = req.URL.Host + ":443"
		}
	}
	for {
		resp, retry, err := t.once(req, addr, body)
		if err != nil && retry {
			continue
		}
		return resp, err
	}
}

func (t *Transport) once(req *http.Request, addr string, body []byte) (*http.Response, bool, error) {
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, false, err
	}
	var p *pconn
	reused := false
	key := req.URL.Scheme + addr
	if l := t.idle[key]; len(l) > 0 {
		p = l[len(l)-1]
		t.idle[key] = l[:len(l)-1]
		reused = true
	} else {
		c, err := t.dial(ctx, addr)
		if err != nil {
			return nil, false, err
		}
		p = &pconn{c, bufio.NewReader(c)}
	}
	var stop func() bool
	if ctx.Done() != nil {
		stop = sctx.AfterFunc(ctx, func() { p.c.Close() })
	}
	wrap := func(err error) error {
		if e := ctx.Err(); e != nil {
			return e
		}
		return err
	}
	var w strings.Builder
	fmt.Fprintf(&w, "%s %s HTTP/1.1\r\nHost: %s\r\n", req.Method, req.URL.RequestURI(), req.URL.Host)
	var hs []string
	for k := range req.Header {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		for _, v := range req.Header[k] {
			fmt.Fprintf(&w, "%s: %s\r\n", k, v)
		}
	}
	if len(body) > 0 || req.Method == "POST" || req.Method == "PUT" {
		fmt.Fprintf(&w, "Content-Length: %d\r\n", len(body))
	}
	closing := t.DisableKeepAlives || req.Close
	if closing {
		w.WriteString("Connection: close\r\n")
	}
	w.WriteString("\r\n")
	if _, err := p.c.Write(append([]byte(w.String()), body...)); err != nil {
		p.c.Close()
		return nil, reused, wrap(err)
	}
	if t.ResponseHeaderTimeout > 0 {
		p.c.SetReadDeadline(time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC).Add(time.Duration(sim.Now()) + t.ResponseHeaderTimeout))
	}
	first := true
	var resp *http.Response
	for {
		if first {
			if _, err := p.br.Peek(1); err != nil {
				p.c.Close()
				// nothing was received on a reused connection: the real
				// transport may replay only what is safe to replay
				idem := req.Method == "GET" || req.Method == "HEAD" || req.Header.Get("Idempotency-Key") != ""
				if err == io.EOF {
					err = io.ErrUnexpectedEOF
					if !reused {
						err = io.EOF
					}
				}
				return nil, reused && idem, wrap(err)
			}
			first = false
		}
		r, err := http.ReadResponse(p.br, req)
		if err != nil {
			p.c.Close()
			if err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return nil, false, wrap(err)
		}
		if r.StatusCode >= 100 && r.StatusCode < 200 && r.StatusCode != 101 {
			continue
		}
		resp = r
		break
	}
	if t.ResponseHeaderTimeout > 0 {
		p.c.SetReadDeadline(time.Time{})
	}
	resp.Body = &bodyReader{rc: resp.Body, p: p, t: t, key: key, keep: !closing && !resp.Close, stop: stop, wrap: wrap}
	return resp, false, nil
}

type bodyReader struct {
	rc   io.ReadCloser
	p    *pconn
	t    *Transport
	key  string
	keep bool
	eof  bool
	done bool
	stop func() bool
	wrap func(error) error
}

func (b *bodyReader) Read(p []byte) (int, error) {
	if b.done {
		return 0, errors.New("http: read on closed response body")
	}
	n, err := b.rc.Read(p)
	if err == io.EOF {
		b.eof = true
	} else if err != nil {
		err = b.wrap(err)
	}
	return n, err
}

func (b *bodyReader) Close() error {
	if b.done {
		return nil
	}
	b.done = true
	if b.stop != nil {
		b.stop()
	}
	if b.keep && b.eof {
		if b.t.idle == nil {
			b.t.idle = map[string][]*pconn{}
		}
		b.t.idle[b.key] = append(b.t.idle[b.key], b.p)
		return nil
	}
	return b.p.c.Close()
}

var DefaultTransport http.RoundTripper = &Transport{}

// Client wraps the real http.Client (redirects, cookies) without its real-time timer.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

type cancelBody struct {
	io.ReadCloser
	f func()
}

func (c cancelBody) Close() error { err := c.ReadCloser.Close(); c.f(); return err }

func (c *Client) Do(req *http.Request) (*http.Response, error) {
	tr := c.Transport
	if tr == nil {
		tr = DefaultTransport
	}
	rc := &http.Client{Transport: tr, CheckRedirect: c.CheckRedirect, Jar: c.Jar}
	if c.Timeout <= 0 {
		return rc.Do(req)
	}
	ctx, cancel := sctx.WithTimeout(req.Context(), c.Timeout)
	resp, err := rc.Do(req.WithContext(ctx))
	if err != nil {
		cancel()
		return nil, err
	}
	resp.Body = cancelBody{resp.Body, cancel}
	return resp, nil
}

func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, contentType string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", contentType)
	return c.Do(req)
}

func (c *Client) PostForm(u string, data url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) CloseIdleConnections() {
	if t, ok := c.Transport.(*Transport); ok {
		t.CloseIdleConnections()
	}
}

var DefaultClient = &Client{}

func Get(u string) (*http.Response, error) { return DefaultClient.Get(u) }
func Post(u, contentType string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, contentType, body)
}

func PostForm(u string, data url.Values) (*http.Response, error) {
	return DefaultClient.PostForm(u, data)
}
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }

// SimReset forgets everything shared between runs.
func SimReset() {
	DefaultTransport = &Transport{}
	DefaultClient = &Client{}
}
