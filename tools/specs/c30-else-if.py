ID='c30-else-if'; PROPERTY='C30'
NEEDS='a later event of the span that both starts before and ends after the earlier ones'
BREAKS='the end of the time span is too early'
EDITS=[('trace.go','''		if v := e.Start(); v.UnixNano() < start.UnixNano() {
			start = v
		}
		if v := e.End(); v.UnixNano() > end.UnixNano() {
			end = v
		}
''','''		if v := e.Start(); v.UnixNano() < start.UnixNano() {
			start = v
		} else if v := e.End(); v.UnixNano() > end.UnixNano() {
			end = v
		}
''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, _ := MarshalEvent(timespanEvent{time.Unix(20, 0), time.Unix(30, 0)})
	b, _ := MarshalEvent(Timespan{time.Unix(10, 0), time.Unix(40, 0)})
	tr := &Trace{Span: Span{Annotations: append(a, b...)}}
	e, err := tr.TimespanEvent()
	if err != nil || e.Start().Unix() != 10 || e.End().Unix() != 40 {
		t.Fatal(e, err)
	}
}
'''
