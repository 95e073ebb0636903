ID='c03-write-unlocked'; PROPERTY='C03'
NEEDS='a collection while the store is being saved'
BREAKS='the store is encoded after its lock has been released: a data race with Collect, and images of no single state'
EDITS=[('store.go','''func (ms *MemoryStore) Write(w io.Writer) error {
	ms.Lock()
	defer ms.Unlock()
''','''func (ms *MemoryStore) Write(w io.Writer) error {
	ms.Lock()
	ms.Unlock() // wait for updates in progress
''')]
EXTRA='-race'
DEMO='''package appdash

import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 1, 0})
	done := make(chan bool)
	go func() {
		for i := 0; i < 300; i++ {
			ms.Collect(SpanID{ID(i + 1), 1, 0})
			ms.Collect(SpanID{ID(i + 1), 2, 1})
		}
		close(done)
	}()
	for i := 0; i < 300; i++ {
		ms.Write(io.Discard)
	}
	<-done
}
'''
