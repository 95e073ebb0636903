// Package http replaces net/http in package main of the instrumented code: servers do not
// listen, their handler is handed to the harness.
package http

import (
	"context"
	"crypto/tls"
	"net"
	real "net/http"
	"time"

	"log"

	"verif/mc"
)

func init() {
	mc.RegisterReset(func() { *real.DefaultServeMux = *real.NewServeMux() })
}

func serve(addr, cert, key string, h Handler) error {
	if h == nil {
		h = real.DefaultServeMux
	}
	return mc.ServeHTTP(addr, cert, key, h)
}

func ListenAndServe(addr string, h Handler) error { return serve(addr, "", "", h) }
func ListenAndServeTLS(addr, cert, key string, h Handler) error {
	return serve(addr, cert, key, h)
}
func Serve(l net.Listener, h Handler) error { return serve(l.Addr().String(), "", "", h) }
func ServeTLS(l net.Listener, h Handler, certFile, key string) error {
	return serve(l.Addr().String(), certFile, key, h)
}

// Server is http.Server.
type Server struct {
	Addr              string
	Handler           Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(net.Listener) context.Context
	ConnContext       func(ctx context.Context, c net.Conn) context.Context
}

func (s *Server) ListenAndServe() error { return serve(s.Addr, "", "", s.Handler) }
func (s *Server) ListenAndServeTLS(cert, key string) error {
	return serve(s.Addr, cert, key, s.Handler)
}
func (s *Server) Serve(l net.Listener) error { return serve(l.Addr().String(), "", "", s.Handler) }
func (s *Server) ServeTLS(l net.Listener, cert, key string) error {
	return serve(l.Addr().String(), cert, key, s.Handler)
}
func (s *Server) Close() error                   { return nil }
func (s *Server) Shutdown(context.Context) error { return nil }
