ID='c11-parent-trace'; PROPERTY='C11'
NEEDS='a span ID whose parent equals its trace ID'
BREAKS='the parent is lost on the way to the server'
EDITS=[('collector.go','''func newCollectPacket(s SpanID, as Annotations) *wire.CollectPacket {
''','''func newCollectPacket(s SpanID, as Annotations) *wire.CollectPacket {
	if s.Parent == s.Trace {
		s.Parent = 0 // the trace itself
	}
''')]
DEMO='''package appdash

import (
	"net"
	"testing"
)

type demoSink chan SpanID

func (s demoSink) Collect(id SpanID, as ...Annotation) error { s <- id; return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := make(demoSink, 1)
	go NewServer(l, s).Start()
	rc := NewRemoteCollector(l.Addr().String())
	id := SpanID{5, 6, 5}
	if err := rc.Collect(id); err != nil {
		t.Fatal(err)
	}
	if got := <-s; got != id {
		t.Fatalf("the server got %v", got)
	}
}
'''
