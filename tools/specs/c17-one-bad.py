ID='c17-one-bad'; PROPERTY='C17'
NEEDS='a span with several events of which one has an annotation that does not fit its field'
BREAKS='the other events of the span are not found any more'
EDITS=[('event.go','''	unflattenValue("", reflect.ValueOf(&e), reflect.TypeOf(&e), mapToKVs(as.StringMap()))
	return nil
''','''	return unflattenValue("", reflect.ValueOf(&e), reflect.TypeOf(&e), mapToKVs(as.StringMap()))
''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	as, err := MarshalEvent(Log("hello"))
	if err != nil {
		t.Fatal(err)
	}
	bad := Annotations{{Key: "Span.Start", Value: []byte("yesterday")}, {Key: SchemaPrefix + "Timespan"}}
	var evs []Event
	UnmarshalEvents(append(bad, as...), &evs)
	for _, e := range evs {
		if l, ok := e.(logEvent); ok && l.Msg == "hello" {
			return
		}
	}
	t.Fatal("the log event is not found: ", evs)
}
'''
