ID='c14-accept-final'; PROPERTY='C14'
NEEDS='a client whose connection is aborted before it is accepted, with an error of Accept that is not temporary'
BREAKS='the server accepts no other client any more'
EDITS=[('collector.go','''			cs.log().Printf("Accept: %s", err)
			continue
''','''			cs.log().Printf("Accept: %s", err)
			if ne, ok := err.(net.Error); !ok || !ne.Temporary() {
				return
			}
			continue
''')]
DEMO='''package appdash

import (
	"net"
	"os"
	"syscall"
	"testing"
	"time"
)

type failing struct {
	net.Listener
	n int
}

func (f *failing) Accept() (net.Conn, error) {
	f.n++
	if f.n == 1 { // as Linux reports a protocol error of a new connection
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EPROTO)}
	}
	return f.Listener.Accept()
}

type got chan int

func (g got) Collect(id SpanID, as ...Annotation) error { g <- len(as); return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := make(got, 10)
	go NewServer(&failing{Listener: l}, g).Start()
	rc := NewRemoteCollector(l.Addr().String())
	if err := rc.Collect(SpanID{1, 2, 3}); err != nil {
		t.Fatal(err)
	}
	select {
	case <-g:
	case <-time.After(3 * time.Second):
		t.Fatal("nothing arrived")
	}
}
'''
