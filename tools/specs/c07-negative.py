ID='c07-negative'; PROPERTY='C07'
NEEDS='a trace ID with the highest bit set that is due for eviction'
BREAKS='traces with IDs of 2^63 and more are never evicted'
EDITS=[('store.go','''nextInsert != 0 {''','''nextInsert > 0 {''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ls := &LimitStore{Max: 1, DeleteStore: ms}
	ls.Collect(SpanID{1 << 63, 1, 0})
	ls.Collect(SpanID{2, 1, 0})
	if _, err := ms.Trace(1 << 63); err != ErrTraceNotFound {
		t.Fatal("not evicted")
	}
}
'''
