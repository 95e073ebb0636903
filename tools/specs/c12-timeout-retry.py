ID='c12-timeout-retry'; PROPERTY='C12'
NEEDS='a write that times out after part of the packet has been sent, on a connection that works again afterwards'
BREAKS='the packet is written again on the same connection: the server reads a garbled packet'
EDITS=[('collector.go','''	if err := rc.pconn.WriteMsg(p); err != nil {
		return err
	}
''','''	err := rc.pconn.WriteMsg(p)
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		err = rc.pconn.WriteMsg(p) // once more
	}
	if err != nil {
		return err
	}
''')]
DEMO='''package appdash

import (
	"net"
	"testing"
	"time"
)

type flaky struct {
	net.Conn
	n int
}

type timeout struct{ error }

func (timeout) Error() string   { return "timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

func (f *flaky) Write(b []byte) (int, error) {
	f.n++
	if f.n <= 2 && len(b) > 2 {
		n, _ := f.Conn.Write(b[:len(b)-1])
		return n, timeout{}
	}
	return f.Conn.Write(b)
}

type got chan SpanID

func (g got) Collect(id SpanID, as ...Annotation) error { g <- id; return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := make(got, 10)
	go NewServer(l, g).Start()
	rc := NewRemoteCollector(l.Addr().String())
	first := true
	rc.dial = func() (net.Conn, error) {
		c, err := net.Dial("tcp", l.Addr().String())
		if first && err == nil {
			first = false
			return &flaky{Conn: c}, nil
		}
		return c, err
	}
	for i := 0; i < 3; i++ {
		id := SpanID{7, ID(i + 1), 9}
		if rc.Collect(id, Annotation{Key: "k", Value: []byte("v")}) != nil {
			continue
		}
		select {
		case r := <-g:
			if r != id {
				t.Fatal(r, id)
			}
		case <-time.After(2 * time.Second):
			t.Fatal("an acknowledged packet did not arrive")
		}
	}
}
'''
