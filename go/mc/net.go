package mc

import (
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Net is the simulated network of an execution. S owns it.
type Net struct {
	listeners map[string]*listener
	conns     []*pair
	port      int
	DialFault func(w *World, n int) bool // nil: Options.NetFault decides
	dials     int
	faults    int
	writes    int
	gen       int64
}

func newNet() *Net { return &Net{listeners: map[string]*listener{}} }

type listener struct {
	network string
	backlog []int64 // numbers of connections
	gen     int64
	closed  bool
	dead    bool
}

// pair is a connection: side 0 dialled, side 1 accepted.
type pair struct {
	id     int
	dir    [2]stream // dir[i]: bytes written by side i
	closed [2]bool
	failed [2]bool  // a write of side i has failed, the connection can still be used
	broken [2]bool  // a write of side i has failed (or the connection was reset)
	rdl    [2]int64 // read deadlines (virtual time, 0: none)
	wdl    [2]int64
}

type stream struct {
	buf   []byte
	total int64
	eof   bool
	lost  bool // what is written now gets lost
}

// opErr makes the error for a number.
func netErr(op string, m int64) error {
	switch m {
	case nEOF:
		return io.EOF
	case nRefused:
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	case nClosed:
		return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed}
	case nPipe:
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	case nReset:
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(op, syscall.ECONNRESET)}
	case nTimeout:
		return &net.OpError{Op: op, Net: "tcp", Err: os.ErrDeadlineExceeded}
	case nInUse:
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	case nNoBufs:
		return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(op, syscall.ENOBUFS)}
	case nProto:
		return &net.OpError{Op: op, Net: "tcp", Err: syscall.EPROTO}
	}
	return nil
}

const (
	nNone = iota
	nEOF
	nRefused
	nClosed
	nPipe
	nReset
	nTimeout
	nInUse
	nProto
	nNoBufs
)

// Addr is an address.
type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

func normAddr(a string) string {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return a
	}
	if h == "" || h == "localhost" || h == "::" || h == "0.0.0.0" {
		h = "127.0.0.1"
	}
	return net.JoinHostPort(h, p)
}

// Conn is one side of a connection.
type Conn struct {
	id   int
	side int
	sync *[2]int32 // addresses for the race detector, one per direction
	addr string
}

// Listener is a listener.
type Listener struct {
	addr string
	gen  int64
	sync int32
}

var syncVars [256][2]int32

// NetListen listens.
func NetListen(network, addr string) (net.Listener, error) {
	a := normAddr(addr)
	if h, p, err := net.SplitHostPort(a); err == nil && p == "0" {
		n := Do(&Op{Name: "free port", Exec: func(w *World) Reply {
			w.Net.port++
			return Reply{N: int64(w.Net.port)}
		}}).N
		a = net.JoinHostPort(h, itoa(50000+n))
	}
	r := Do(&Op{Name: "listen " + a, Exec: func(w *World) Reply {
		if l := w.Net.listeners[a]; l != nil && !l.closed && !l.dead {
			return Reply{M: nInUse}
		}
		w.Net.gen++
		w.Net.listeners[a] = &listener{network: network, gen: w.Net.gen}
		return Reply{OK: true, N: w.Net.gen}
	}})
	if r.M != 0 {
		return nil, netErr("listen", r.M)
	}
	return &Listener{addr: a, gen: r.N}, nil
}

// NetTLS makes a listener speak TLS.
func NetTLS(l net.Listener) {
	if x, ok := l.(*Listener); ok {
		Do(&Op{Name: "TLS listener", Exec: func(w *World) Reply {
			if y := w.Net.listeners[x.addr]; y != nil && y.gen == x.gen && !strings.HasPrefix(y.network, "tls+") {
				y.network = "tls+" + y.network
			}
			return Reply{OK: true}
		}})
	}
}

// Accept waits for a connection.
func (l *Listener) Accept() (net.Conn, error) {
	r := Do(&Op{Name: "accept", Point: true,
		Enabled: func(w *World) bool {
			x := w.Net.listeners[l.addr]
			return x.gen == l.gen && !x.dead && (x.closed || len(x.backlog) > 0)
		},
		Exec: func(w *World) Reply {
			x := w.Net.listeners[l.addr]
			if len(x.backlog) > 0 && !x.closed {
				n := x.backlog[0]
				x.backlog = x.backlog[1:]
				return Reply{OK: true, N: n}
			}
			return Reply{M: nClosed}
		}})
	if !r.OK {
		if r.M == nClosed {
			Yield("accept failed") // a loop around Accept must not starve the others
		}
		return nil, netErr("accept", r.M)
	}
	return &Conn{id: int(r.N), side: 1, sync: &syncVars[r.N%256], addr: l.addr}, nil
}

// Close closes the listener.
func (l *Listener) Close() error {
	r := Do(&Op{Name: "close listener", Point: true, Exec: func(w *World) Reply {
		x := w.Net.listeners[l.addr]
		if x.closed || x.gen != l.gen {
			return Reply{M: nClosed}
		}
		x.closed = true
		for _, n := range x.backlog {
			c := w.Net.conns[n]
			c.closed[1] = true
			c.dir[1].eof = true
		}
		return Reply{OK: true}
	}})
	return netErr("close", r.M)
}

// Addr is the address.
func (l *Listener) Addr() net.Addr {
	if h, p, err := net.SplitHostPort(l.addr); err == nil {
		n := 0
		for _, c := range p {
			if c < '0' || c > '9' || n > 65535 {
				return Addr(l.addr)
			}
			n = 10*n + int(c-'0')
		}
		if ip := net.ParseIP(h); ip != nil && n < 65536 {
			return &net.TCPAddr{IP: ip, Port: n}
		}
	}
	return Addr(l.addr)
}

// File and deadlines are not supported.
func (l *Listener) SetDeadline(time.Time) error { return nil }

// NetDial dials.
func NetDial(network, addr string, timeout time.Duration) (net.Conn, error) {
	a := normAddr(addr)
	r := Do(&Op{Name: "dial " + a, Point: true, Exec: func(w *World) Reply {
		n := w.Net
		n.dials++
		l := n.listeners[a]
		if l == nil || l.closed || l.dead {
			return Reply{M: nRefused}
		}
		if w.Opt.NetFault && w.Choose(2, 1, "fault: dial") == 1 {
			n.faults++
			return Reply{M: nRefused}
		}
		if l.network != network {
			return Reply{M: nProto}
		}
		id := len(n.conns)
		n.conns = append(n.conns, &pair{id: id})
		l.backlog = append(l.backlog, int64(id))
		return Reply{OK: true, N: int64(id)}
	}})
	if r.M != 0 || !r.OK {
		return nil, netErr("dial", r.M)
	}
	return &Conn{id: int(r.N), side: 0, sync: &syncVars[r.N%256], addr: a}, nil
}

// Read reads.
func (c *Conn) Read(p []byte) (int, error) {
	want := len(p)
	if want == 0 {
		return 0, nil
	}
	r := Do(&Op{Name: "conn read", Point: true,
		Enabled: func(w *World) bool {
			x := w.Net.conns[c.id]
			s := &x.dir[1-c.side]
			return len(s.buf) > 0 || s.eof || x.closed[c.side] || x.rdl[c.side] != 0 && w.now >= x.rdl[c.side]
		},
		Exec: func(w *World) Reply {
			x := w.Net.conns[c.id]
			s := &x.dir[1-c.side]
			switch {
			case x.closed[c.side]:
				return Reply{M: nClosed}
			case x.rdl[c.side] != 0 && w.now >= x.rdl[c.side]:
				return Reply{M: nTimeout}
			case len(s.buf) == 0:
				return Reply{M: nEOF}
			}
			n := len(s.buf)
			if n > want {
				n = want
			}
			if w.Opt.ShortRead && n > 1 {
				cost := int8(1)
				if w.Opt.ReadFree {
					cost = 0
				}
				cuts := readCuts(n)
				if i := w.Choose(len(cuts)+1, cost, "bytes read"); i > 0 {
					n = cuts[i-1]
				}
			}
			d := s.buf[:n:n]
			s.buf = s.buf[n:]
			return Reply{OK: true, V: boxBytes(d)}
		}})
	if !r.OK {
		return 0, netErr("read", r.M)
	}
	Acquire(unsafe.Pointer(&c.sync[1-c.side]))
	return copyOut(p, r), nil
}

// readCuts lists the sizes below n that a read may return.
func readCuts(n int) []int {
	var r []int
	if n <= 100 {
		for k := 1; k < n; k++ {
			r = append(r, k)
		}
		return r
	}
	for k := 1; k <= 32; k++ {
		r = append(r, k)
	}
	for _, k := range []int{n / 3, n / 2, n - 3, n - 2, n - 1} {
		r = append(r, k)
	}
	return r
}

// Write writes.
func (c *Conn) Write(p []byte) (int, error) {
	q := copyBytes(p)
	Release(unsafe.Pointer(&c.sync[c.side]))
	r := Do(&Op{Name: "conn write", Point: true, Exec: func(w *World) Reply {
		x := w.Net.conns[c.id]
		s := &x.dir[c.side]
		switch {
		case x.closed[c.side]:
			return Reply{M: nClosed}
		case x.broken[c.side]:
			return Reply{M: nPipe}
		case x.wdl[c.side] != 0 && w.now >= x.wdl[c.side]:
			return Reply{M: nTimeout}
		case x.closed[1-c.side]:
			// The peer has closed: the first write may still be accepted and get lost.
			if w.Opt.NetFault && !s.lost && w.Choose(2, 1, "write to closed peer is lost") == 1 {
				s.lost = true
				w.Net.faults++
				return Reply{OK: true, N: int64(len(q))}
			}
			x.broken[c.side] = true
			return Reply{M: nPipe}
		}
		n := len(q)
		w.Net.writes++
		if p := w.Opt.FaultPart; w.Opt.NetFault && n > 0 && (p[1] == 0 || w.Net.writes%p[1] == p[0]) {
			cuts := writeCuts(n)
			if w.Opt.FewCuts && n > 4 {
				cuts = []int{0, 1, n / 2, n - 1, n}
			}
			trans := 0
			if w.Opt.NetTransient {
				trans = len(cuts)
				if n > 1 {
					cuts = append(cuts, 0, 1, n/2, n-1, 0, 1, n/2, n-1)
				}
			}
			if i := w.Choose(len(cuts)+1, 1, "fault: write cut at"); i > 0 {
				k := cuts[i-1]
				w.Net.faults++
				if trans > 0 && i > trans {
					// A failure that does not end the connection (ENOBUFS, a deadline).
					s.buf = append(s.buf[:len(s.buf):len(s.buf)], q[:k]...)
					s.total += int64(k)
					x.failed[c.side] = true
					if i > trans+4 {
						return Reply{M: nTimeout, N: int64(k)}
					}
					return Reply{M: nNoBufs, N: int64(k)}
				}
				s.buf = append(s.buf[:len(s.buf):len(s.buf)], q[:k]...)
				s.total += int64(k)
				s.eof = true
				x.broken[c.side] = true
				x.dir[1-c.side].eof = true
				return Reply{M: nReset, N: int64(k)}
			}
		}
		s.buf = append(s.buf[:len(s.buf):len(s.buf)], q...)
		s.total += int64(n)
		return Reply{OK: true, N: int64(n)}
	}})
	if !r.OK {
		n := int(r.N)
		if n == len(p) && n > 0 {
			// The whole packet went out and the failure is reported all the same.
			return n - 1, netErr("write", r.M)
		}
		return n, netErr("write", r.M)
	}
	return len(p), nil
}

// writeCuts lists the numbers of bytes after which a write may fail.
func writeCuts(n int) []int {
	var r []int
	if n <= 80 {
		for k := 0; k <= n; k++ {
			r = append(r, k)
		}
		return r
	}
	for k := 0; k <= 16; k++ {
		r = append(r, k)
	}
	return append(r, n/2, n-2, n-1, n)
}

// Close closes this side.
func (c *Conn) Close() error {
	r := Do(&Op{Name: "conn close", Point: true, Exec: func(w *World) Reply {
		x := w.Net.conns[c.id]
		if x.closed[c.side] {
			return Reply{M: nClosed}
		}
		x.closed[c.side] = true
		x.dir[c.side].eof = true
		return Reply{OK: true}
	}})
	return netErr("close", r.M)
}

// CloseWrite ends the stream of this side only.
func (c *Conn) CloseWrite() error {
	Do(&Op{Name: "conn closewrite", Point: true, Exec: func(w *World) Reply {
		x := w.Net.conns[c.id]
		x.dir[c.side].eof = true
		x.broken[c.side] = true
		return Reply{OK: true}
	}})
	return nil
}

func (c *Conn) LocalAddr() net.Addr {
	if c.side == 1 {
		return Addr(c.addr)
	}
	return Addr("127.0.0.1:" + itoa(int64(40000+c.id)))
}

func (c *Conn) RemoteAddr() net.Addr {
	if c.side == 0 {
		return Addr(c.addr)
	}
	return Addr("127.0.0.1:" + itoa(int64(40000+c.id)))
}

func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(t.Sub(Epoch))
	if d < 1 {
		d = 1
	}
	return d
}

func (c *Conn) setDL(t time.Time, rd, wr bool) error {
	d := deadline(t)
	r := Do(&Op{Name: "set deadline", Exec: func(w *World) Reply {
		x := w.Net.conns[c.id]
		if x.closed[c.side] {
			return Reply{M: nClosed}
		}
		if rd {
			x.rdl[c.side] = d
		}
		if wr {
			x.wdl[c.side] = d
		}
		if rd && d > w.now {
			w.addTimer(d-w.now, nil)
		}
		return Reply{OK: true}
	}})
	return netErr("set", r.M)
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.setDL(t, true, true) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDL(t, true, false) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDL(t, false, true) }

// SetKeepAlive and others exist for code written for TCP connections.
func (c *Conn) SetKeepAlive(bool) error                  { return nil }
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *Conn) SetNoDelay(bool) error                    { return nil }

// NetDials returns the number of dials (successful or not) so far.
func NetDials() int {
	return int(Do(&Op{Name: "dials?", Exec: func(w *World) Reply { return Reply{N: int64(w.Net.dials)} }}).N)
}

// NetFaults returns the number of failures injected so far.
func NetFaults() int {
	return int(Do(&Op{Name: "faults?", Exec: func(w *World) Reply { return Reply{N: int64(w.Net.faults)} }}).N)
}

// NetConns returns the number of connections made so far.
func NetConns() int {
	return int(Do(&Op{Name: "conns?", Exec: func(w *World) Reply { return Reply{N: int64(len(w.Net.conns))} }}).N)
}

// NetClosed tells whether a side of a connection has been closed.
func NetClosed(id, side int) bool {
	return Do(&Op{Name: "closed?", Exec: func(w *World) Reply {
		return Reply{OK: id < len(w.Net.conns) && w.Net.conns[id].closed[side]}
	}}).OK
}

// NetBroken tells whether a write of a side of a connection has failed.
func NetBroken(id, side int) bool {
	return Do(&Op{Name: "broken?", Exec: func(w *World) Reply {
		return Reply{OK: id < len(w.Net.conns) && w.Net.conns[id].broken[side]}
	}}).OK
}

// NetReset breaks every connection (both sides see the end of the stream; writes fail) and listeners are gone: a server that dies.
func NetReset() {
	Do(&Op{Name: "net reset", Exec: func(w *World) Reply {
		for _, x := range w.Net.conns {
			for i := 0; i < 2; i++ {
				x.dir[i].eof = true
				x.broken[i] = true
			}
		}
		for _, l := range w.Net.listeners {
			l.dead = true // the threads that serve it never get another connection
		}
		return Reply{OK: true}
	}})
}

// NetBreak breaks one connection.
func NetBreak(id int) {
	Do(&Op{Name: "net break", Exec: func(w *World) Reply {
		x := w.Net.conns[id]
		for i := 0; i < 2; i++ {
			x.dir[i].eof = true
			x.broken[i] = true
		}
		return Reply{OK: true}
	}})
}

// ConnID returns the number of a connection.
func ConnID(c net.Conn) int { return c.(*Conn).id }

// ---- HTTP servers of the program ----

type httpServer struct {
	h    any
	info HTTPInfo
	sync int32 // requests happen after the start of the server
}

// HTTPInfo tells how the program serves HTTP.
type HTTPInfo struct{ Addr, Cert, Key string }

// ServeHTTP hands a handler to the harness and blocks.
func ServeHTTP(addr, cert, key string, h any) error {
	s := &httpServer{h: h, info: HTTPInfo{addr, cert, key}}
	raceReleaseMerge(unsafe.Pointer(&s.sync))
	Do(&Op{Name: "serve http " + addr, Point: true, Exec: func(w *World) Reply {
		w.Ext["http"] = s
		w.Ext["http at "+normAddr(addr)] = s
		return Reply{OK: true}
	}})
	Park("serving http")
	return net.ErrClosed
}

// HTTPHandler waits for a handler; nil if the program has ended or is fatal.
func HTTPHandler() any {
	r := Do(&Op{Name: "wait for http server", Point: true, Enabled: func(w *World) bool {
		return w.Ext["http"] != nil || w.Ext["fatal"] != nil || w.Ext["main-ended"] != nil
	}, Exec: func(w *World) Reply {
		if s, ok := w.Ext["http"].(*httpServer); ok && w.Ext["fatal"] == nil {
			return Reply{OK: true, V: s}
		}
		return Reply{}
	}})
	if !r.OK {
		return nil
	}
	s := r.V.(*httpServer)
	raceAcquire(unsafe.Pointer(&s.sync))
	return s.h
}

// HTTPHandlerAt gives the handler that serves an address; nil if there is none.
func HTTPHandlerAt(addr string) any {
	r := Do(&Op{Name: "http server at " + addr, Point: true, Exec: func(w *World) Reply {
		if s, ok := w.Ext["http at "+normAddr(addr)].(*httpServer); ok {
			return Reply{OK: true, V: s}
		}
		return Reply{}
	}})
	if !r.OK {
		return nil
	}
	s := r.V.(*httpServer)
	raceAcquire(unsafe.Pointer(&s.sync))
	return s.h
}

// HTTPServer tells how the program serves HTTP; zero if it does not.
func HTTPServer() HTTPInfo {
	r := Do(&Op{Name: "http server?", Exec: func(w *World) Reply {
		if s, ok := w.Ext["http"].(*httpServer); ok {
			return Reply{OK: true, V: s}
		}
		return Reply{}
	}})
	if !r.OK {
		return HTTPInfo{}
	}
	s := r.V.(*httpServer)
	raceAcquire(unsafe.Pointer(&s.sync))
	return s.info
}

// SetExt sets a flag that Enabled functions can test.
func SetExt(k string) {
	Do(&Op{Name: "set " + k, Exec: func(w *World) Reply { w.Ext[k] = true; return Reply{OK: true} }})
}

// ClearExt clears a flag.
func ClearExt(k string) {
	Do(&Op{Name: "clear " + k, Exec: func(w *World) Reply { delete(w.Ext, k); return Reply{OK: true} }})
}

// WaitExt waits until a flag is set.
func WaitExt(k string) {
	Do(&Op{Name: "wait for " + k, Point: true, Enabled: func(w *World) bool { return w.Ext[k] != nil }, Exec: func(w *World) Reply { return Reply{OK: true} }})
}
