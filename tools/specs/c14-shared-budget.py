ID='c14-shared-budget'; PROPERTY='C14'
NEEDS='eight clients whose connections end with an error'
BREAKS='the server stops to serve: places of clients that failed are never given back'
EDITS=[('collector.go','''	rdr := pio.NewDelimitedReader(conn, maxMessageSize)
	defer rdr.Close()
''','''	cs.logMu.Lock()
	cs.active++
	full := cs.active > 8
	cs.logMu.Unlock()
	if full {
		return errors.New("too many clients")
	}

	rdr := pio.NewDelimitedReader(conn, maxMessageSize)
	defer rdr.Close()
'''),('collector.go','''			if err == io.EOF {
				return nil
			}
''','''			if err == io.EOF {
				cs.logMu.Lock()
				cs.active--
				cs.logMu.Unlock()
				return nil
			}
'''),('collector.go','''	// Debug is whether to log debug messages.
	Debug bool

	// Trace is whether''','''	active int // number of clients

	// Debug is whether to log debug messages.
	Debug bool

	// Trace is whether''')]
DEMO='''package appdash

import (
	"io"
	"log"
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	ms := NewMemoryStore()
	cs := NewServer(l, NewLocalCollector(ms))
	cs.Log = log.New(io.Discard, "", 0)
	go cs.Start()
	for i := 0; i < 20; i++ {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		c.Write([]byte{1, 0xff})
		c.Close()
	}
	time.Sleep(200 * time.Millisecond)
	rc := NewRemoteCollector(l.Addr().String())
	rc.Collect(SpanID{1, 1, 0})
	time.Sleep(200 * time.Millisecond)
	ms.Lock()
	defer ms.Unlock()
	if ms.trace[1] == nil {
		t.Fatal("not collected")
	}
}
'''
