// Package tls stands in for the dialing part of crypto/tls: the simulated
// network carries the stream in the clear (TLS itself is a stub).
package tls

import (
	"context"
	"crypto/tls"
	"net"

	snet "github.com/donnie4w/gofer/verifsim/shadow/net"
)

type Dialer struct {
	NetDialer *snet.Dialer
	Config    *tls.Config
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return d.NetDialer.Dial(network, addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return d.NetDialer.DialContext(ctx, network, addr)
}

func Dial(network, addr string, c *tls.Config) (net.Conn, error) { return snet.Dial(network, addr) }
func DialWithDialer(d *snet.Dialer, network, addr string, c *tls.Config) (net.Conn, error) {
	return d.Dial(network, addr)
}
func Client(c net.Conn, cfg *tls.Config) net.Conn { return c }
