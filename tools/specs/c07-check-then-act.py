ID='c07-check-then-act'; PROPERTY='C07'
NEEDS='two goroutines that collect spans of the same new trace at the same time'
BREAKS='the trace takes two places of the ring: older traces are deleted too early'
EDITS=[('store.go','''	ls.mu.Lock()
	defer ls.mu.Unlock()
	if ls.ring == nil {''','''	ls.mu.Lock()
	if ls.ring == nil {'''),('store.go','''	if _, ok := ls.traces[id.Trace]; ok {
		return ls.DeleteStore.Collect(id, anns...)
	}

	if nextInsert''','''	_, known := ls.traces[id.Trace]
	ls.mu.Unlock()
	if known {
		return ls.DeleteStore.Collect(id, anns...)
	}

	ls.mu.Lock()
	defer ls.mu.Unlock()
	if nextInsert''')]
DEMO='''package appdash

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		ls := &LimitStore{Max: 2, DeleteStore: NewMemoryStore()}
		ls.Collect(SpanID{1, 1, 0})
		var wg sync.WaitGroup
		for k := ID(0); k < 4; k++ {
			wg.Add(1)
			go func(k ID) {
				ls.Collect(SpanID{2, 2 + k, 2})
				wg.Done()
			}(k)
		}
		wg.Wait()
		if _, err := ls.Trace(1); err != nil {
			t.Fatal("trace 1 is gone although there are only two traces")
		}
	}
}
'''
