ID='c06-boundary'; PROPERTY='C06'
NEEDS='an eviction at exactly the minimum age of a trace, to the nanosecond'
BREAKS='a trace is deleted when its age equals MinEvictAge'
EDITS=[('store.go','''		if ct < tnano {''','''		if ct <= tnano {''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	rs := &RecentStore{MinEvictAge: time.Hour, DeleteStore: ms}
	rs.Collect(SpanID{1, 1, 0})
	rs.mu.Lock()
	rs.evictBefore(time.Unix(0, rs.created[1]))
	rs.mu.Unlock()
	time.Sleep(50 * time.Millisecond)
	if _, err := ms.Trace(1); err != nil {
		t.Fatal("evicted at the very age up to which it must be kept")
	}
}
'''
