// Package tls replaces crypto/tls in the instrumented code: the stream is that of the
// simulated network; the handshake is not simulated (but checked to be TLS on both sides).
package tls

import (
	real "crypto/tls"
	"errors"
	"time"

	"verif/mc"
	"verif/shim/net"
)

// Conn is tls.Conn.
type Conn struct{ net.Conn }

func (c *Conn) Handshake() error                      { return nil }
func (c *Conn) ConnectionState() real.ConnectionState { return real.ConnectionState{} }
func (c *Conn) NetConn() net.Conn                     { return c.Conn }

func Dial(network, addr string, config *Config) (*Conn, error) {
	c, err := mc.NetDial("tls+"+network, addr, 0)
	if err != nil {
		return nil, err
	}
	return &Conn{c}, nil
}

func DialWithDialer(d *net.Dialer, network, addr string, config *Config) (*Conn, error) {
	var t time.Duration
	if d != nil {
		t = d.Timeout
	}
	c, err := mc.NetDial("tls+"+network, addr, t)
	if err != nil {
		return nil, err
	}
	return &Conn{c}, nil
}

func Listen(network, addr string, config *Config) (net.Listener, error) {
	if config == nil || len(config.Certificates) == 0 && config.GetCertificate == nil && config.GetConfigForClient == nil {
		return nil, errors.New("tls: neither Certificates, GetCertificate, nor GetConfigForClient set in Config")
	}
	return mc.NetListen("tls+"+network, addr)
}

func NewListener(l net.Listener, config *Config) net.Listener {
	mc.NetTLS(l)
	return l
}
func Client(c net.Conn, config *Config) *Conn                 { return &Conn{c} }
func Server(c net.Conn, config *Config) *Conn                 { return &Conn{c} }

// X509KeyPair accepts everything that the real one accepts.
var X509KeyPair = real.X509KeyPair
