// Package net replaces package net in the instrumented code: the network is that of the explorer.
package net

import (
	"context"
	real "net"
	"time"

	"verif/mc"
)

func Dial(network, addr string) (Conn, error) { return mc.NetDial(network, addr, 0) }
func DialTimeout(network, addr string, d time.Duration) (Conn, error) {
	return mc.NetDial(network, addr, d)
}
func Listen(network, addr string) (Listener, error) { return mc.NetListen(network, addr) }

// Dialer is net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	KeepAlive     time.Duration
	LocalAddr     real.Addr
	DualStack     bool
	FallbackDelay time.Duration
}

func (d *Dialer) Dial(network, addr string) (Conn, error) {
	return mc.NetDial(network, addr, d.Timeout)
}
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (Conn, error) {
	return mc.NetDial(network, addr, d.Timeout)
}

// ListenTCP listens; the result has the methods of net.TCPListener that are in use.
func ListenTCP(network string, a *TCPAddr) (Listener, error) {
	return mc.NetListen(network, a.String())
}

// DialTCP dials.
func DialTCP(network string, l, r *TCPAddr) (Conn, error) { return mc.NetDial(network, r.String(), 0) }
