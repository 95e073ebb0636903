ID='c08-reuse-map'; PROPERTY='C08'
NEEDS='a flush, another flush, and a collection while the second one delivers'
BREAKS='what is collected then goes into the map that the flush empties at its end, and is lost'
EDITS=[('collector.go','''	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()

	if cc.OnFlush''','''	cc.pendingBySpanID = cc.spare
	cc.spare = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()

	if cc.OnFlush'''),('collector.go','''	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return fmt.Errorf("ChunkedCollector: multiple''','''	for spanID := range pendingBySpanID {
		delete(pendingBySpanID, spanID)
	}
	cc.mu.Lock()
	cc.spare = pendingBySpanID
	if cc.pendingBySpanID == nil {
		cc.pendingBySpanID = cc.spare
	}
	cc.mu.Unlock()

	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return fmt.Errorf("ChunkedCollector: multiple'''),('collector.go','''	queueSizeBytes  uint64
	pendingBySpanID map[SpanID]Annotations
''','''	queueSizeBytes  uint64
	pendingBySpanID map[SpanID]Annotations
	spare           map[SpanID]Annotations // emptied map of an earlier flush
''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

type demoSlow struct {
	n  int
	cc *ChunkedCollector
	ms *MemoryStore
}

func (d *demoSlow) Collect(id SpanID, as ...Annotation) error {
	if d.n++; d.n == 3 {
		d.cc.Collect(SpanID{9, 9, 0}) // while a flush is under way
	}
	return d.ms.Collect(id, as...)
}

func TestDemo(t *testing.T) {
	for round := 0; round < 50; round++ {
		demo(t)
	}
}

func demo(t *testing.T) {
	d := &demoSlow{ms: NewMemoryStore()}
	cc := &ChunkedCollector{Collector: d, MinInterval: time.Hour}
	d.cc = cc
	cc.Collect(SpanID{1, 1, 0})
	cc.Flush()
	cc.Collect(SpanID{2, 2, 0})
	cc.Flush()
	cc.Collect(SpanID{3, 3, 0})
	cc.Flush()
	cc.Flush()
	cc.Stop()
	for _, id := range []ID{1, 2, 3, 9} {
		if _, err := d.ms.Trace(id); err != nil {
			t.Fatal(id, err)
		}
	}
}
'''
