ID='c11-split'; PROPERTY='C11'
NEEDS='a collection of more than 1000 annotations'
BREAKS='it reaches the server in several collections'
EDITS=[('collector.go','''	return rc.collectAndRetry(newCollectPacket(span, anns))
''','''	// Keep the packets small.
	for len(anns) > 1000 {
		if err := rc.collectAndRetry(newCollectPacket(span, anns[:1000])); err != nil {
			return err
		}
		anns = anns[1000:]
	}
	return rc.collectAndRetry(newCollectPacket(span, anns))
''')]
DEMO='''package appdash

import (
	"net"
	"testing"
	"time"
)

type got chan int

func (g got) Collect(id SpanID, as ...Annotation) error { g <- len(as); return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	g := make(got, 10)
	go NewServer(l, g).Start()
	rc := NewRemoteCollector(l.Addr().String())
	if err := rc.Collect(SpanID{1, 2, 3}, make([]Annotation, 1500)...); err != nil {
		t.Fatal(err)
	}
	select {
	case n := <-g:
		if n != 1500 {
			t.Fatal(n, "annotations in the first collection")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("nothing arrived")
	}
}
'''
