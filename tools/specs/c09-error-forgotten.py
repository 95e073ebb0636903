ID='c09-error-forgotten'; PROPERTY='C09'
NEEDS='an automatic flush that fails, followed by one that succeeds, before the next collection'
BREAKS='the error of the failed flush is never returned by Collect'
EDITS=[('collector.go','''				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
''','''				err := cc.Flush()
				cc.mu.Lock()
				cc.lastErr = err
				cc.mu.Unlock()
''')]
DEMO='''package appdash

import (
	"errors"
	"sync/atomic"
	"testing"
	"time"
)

type demoColl struct{}

func (demoColl) Collect(SpanID, ...Annotation) error { return errors.New("failed") }

func TestDemo(t *testing.T) {
	var flushes int32
	cc := &ChunkedCollector{Collector: demoColl{}, MinInterval: 20 * time.Millisecond, OnFlush: func(int) { atomic.AddInt32(&flushes, 1) }}
	defer cc.Stop()
	if err := cc.Collect(SpanID{1, 1, 0}); err != nil {
		t.Fatal(err)
	}
	for atomic.LoadInt32(&flushes) < 4 {
		time.Sleep(5 * time.Millisecond)
	}
	if err := cc.Collect(SpanID{1, 1, 0}); err == nil {
		t.Fatal("the error of the first automatic flush was lost")
	}
}
'''
