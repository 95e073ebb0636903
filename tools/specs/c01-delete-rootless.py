ID='c01-delete-rootless'; PROPERTY='C01'
NEEDS='a trace that is deleted before its root span was collected, and a later collection of one of its spans'
BREAKS='the span is not in any trace'
EDITS=[('store.go','''	for _, id := range traces {
		delete(ms.trace, id)
		delete(ms.span, id)
	}
	return nil
''','''	for _, id := range traces {
		t, present := ms.trace[id]
		delete(ms.trace, id)
		if present && t.Span.ID.IsRoot() {
			delete(ms.span, id)
		}
	}
	return nil
''')]
PKG='.'
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{Trace: 1, Span: 2, Parent: 1})
	ms.Delete(1)
	ms.Collect(SpanID{Trace: 1, Span: 2, Parent: 1})
	if _, err := ms.Trace(1); err != nil {
		t.Fatal(err)
	}
}
'''
