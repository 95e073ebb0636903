ID='c10-flush-on-stop'; PROPERTY='C10'
NEEDS='Stop while something is queued'
BREAKS='what is queued is sent after Stop has returned'
EDITS=[('collector.go','''				return // stop
''','''				cc.Flush() // what is left
				return     // stop
''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	cc := &ChunkedCollector{Collector: ms, MinInterval: time.Hour}
	cc.Collect(SpanID{1, 1, 0})
	cc.Stop()
	time.Sleep(200 * time.Millisecond)
	if _, err := ms.Trace(1); err == nil {
		t.Fatal("sent after Stop")
	}
}
'''
