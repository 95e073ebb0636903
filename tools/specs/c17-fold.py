ID='c17-fold'; PROPERTY='C17'
NEEDS='a span with a "Timespan" event that is asked for a "timespan" event'
BREAKS='asking for an event type that is not there gives an event instead of an error'
EDITS=[('event.go','''		if s == e.Schema() {
			schemaOK = true
''','''		if strings.EqualFold(s, e.Schema()) {
			schemaOK = true
'''),('event.go','''	"reflect"
	"time"
)''','''	"reflect"
	"strings"
	"time"
)''')]
DEMO='''package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	as, err := MarshalEvent(Timespan{time.Unix(1, 0), time.Unix(2, 0)})
	if err != nil {
		t.Fatal(err)
	}
	var g timespanEvent
	if err := UnmarshalEvent(as, &g); err == nil {
		t.Fatal("found an event that is not there:", g)
	}
}
'''
