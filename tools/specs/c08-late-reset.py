ID='c08-late-reset'; PROPERTY='C08'
NEEDS='a collection between the moment a flush takes the queue and the moment it empties it'
BREAKS='what is collected while OnFlush runs is lost'
EDITS=[('collector.go','''	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()

	if cc.OnFlush != nil {
		cc.OnFlush(len(pendingBySpanID))
	}
''','''	cc.mu.Unlock()

	if cc.OnFlush != nil {
		cc.OnFlush(len(pendingBySpanID))
	}

	cc.mu.Lock()
	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()
''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	var cc *ChunkedCollector
	n := 0
	cc = &ChunkedCollector{Collector: ms, MinInterval: time.Hour, OnFlush: func(int) {
		if n++; n == 1 {
			cc.Collect(SpanID{1, 1, 0})
		}
	}}
	cc.Flush()
	cc.Flush()
	cc.Stop()
	if _, err := ms.Trace(1); err != nil {
		t.Fatal("collection during a flush was lost")
	}
}
'''
