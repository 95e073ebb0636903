ID='c16-unexported'; PROPERTY='C16'
NEEDS='an event type with an unexported field before an exported one'
BREAKS='the exported fields after the unexported one are not marshalled'
EDITS=[('reflect.go','''			continue // ignore all unwant fields
''','''			break // ignore all unwant fields
''')]
DEMO='''package appdash

import "testing"

type demoEvent struct {
	before int
	After  string
}

func (demoEvent) Schema() string { return "demo" }

func TestDemo(t *testing.T) {
	as, err := MarshalEvent(demoEvent{1, "x"})
	if err != nil {
		t.Fatal(err)
	}
	var g demoEvent
	if err := UnmarshalEvent(as, &g); err != nil || g.After != "x" {
		t.Fatal(g, err)
	}
}
'''
