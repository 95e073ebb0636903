ID='c04-merge-load'; PROPERTY='C04'
NEEDS='loading into a store that already holds other traces'
BREAKS='traces that the store held before the load stay listed, without their span index'
EDITS=[('store.go','''	ms.trace = data.Trace
''','''	for id, t := range data.Trace {
		ms.trace[id] = t
	}
''')]
DEMO='''package appdash

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewMemoryStore(), NewMemoryStore()
	a.Collect(SpanID{1, 1, 0})
	b.Collect(SpanID{2, 2, 0})
	var buf bytes.Buffer
	if err := a.Write(&buf); err != nil {
		t.Fatal(err)
	}
	if _, err := b.ReadFrom(&buf); err != nil {
		t.Fatal(err)
	}
	if _, err := b.Trace(2); err != ErrTraceNotFound {
		t.Fatal("trace 2 is not of the loaded store")
	}
}
'''
