ID='c09-dropped-size'; PROPERTY='C09'
NEEDS='a flush that times out after part of the queue'
BREAKS='the size of the spans dropped stays counted: later collections are dropped although they fit'
EDITS=[('collector.go','''			cc.mu.Lock()
			if cc.Log != nil {
				cc.Log.Println("ChunkedCollector: queue entirely dropped (trace data will be missing)")
				cc.Log.Printf("ChunkedCollector: queueSize:%v queueSizeBytes:%v\\n", len(pendingBySpanID), queueSizeBytes)
			}
''','''			cc.mu.Lock()
			if cc.Log != nil {
				cc.Log.Println("ChunkedCollector: queue entirely dropped (trace data will be missing)")
				cc.Log.Printf("ChunkedCollector: queueSize:%v queueSizeBytes:%v\\n", len(pendingBySpanID), queueSizeBytes)
			}
			cc.queueSizeBytes = queueSizeBytes - queueSizeBytes/uint64(len(pendingBySpanID))
''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

type demoSlow struct{}

func (demoSlow) Collect(SpanID, ...Annotation) error { time.Sleep(20 * time.Millisecond); return nil }

func TestDemo(t *testing.T) {
	cc := &ChunkedCollector{Collector: demoSlow{}, MinInterval: time.Hour, FlushTimeout: time.Millisecond, MaxQueueSize: 60}
	defer cc.Stop()
	cc.Collect(SpanID{1, 1, 0})
	cc.Collect(SpanID{2, 2, 0})
	if err := cc.Flush(); err != ErrQueueDropped {
		t.Fatal(err)
	}
	for i := ID(3); i < 5; i++ {
		if err := cc.Collect(SpanID{i, i, 0}); err != nil {
			t.Fatal(err)
		}
	}
}
'''
