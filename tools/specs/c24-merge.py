ID='c24-merge'; PROPERTY='C24'
NEEDS='a baggage item with the key of a tag'
BREAKS='one of the two is lost'
EDITS=[('opentracing/recorder.go','''	for key, value := range sp.Tags {
		val := []byte(fmt.Sprintf("%+v", value))
		r.collectAnnotation(spanID, appdash.Annotation{Key: key, Value: val})
	}

	for key, val := range sp.Context.Baggage {
		r.collectAnnotation(spanID, appdash.Annotation{Key: key, Value: []byte(val)})
	}
''','''	all := make(map[string]string, len(sp.Tags)+len(sp.Context.Baggage))
	for key, val := range sp.Context.Baggage {
		all[key] = val
	}
	for key, value := range sp.Tags {
		all[key] = fmt.Sprintf("%+v", value)
	}
	for key, val := range all {
		r.collectAnnotation(spanID, appdash.Annotation{Key: key, Value: []byte(val)})
	}
''')]
PKG='opentracing'
DEMO='''package opentracing

import (
	"testing"

	basictracer "github.com/opentracing/basictracer-go"
	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	sp := basictracer.RawSpan{Context: basictracer.SpanContext{TraceID: 1, SpanID: 2, Sampled: true, Baggage: map[string]string{"k": "b"}}}
	sp.Tags = map[string]interface{}{"k": "t"}
	NewRecorder(ms, Options{}).RecordSpan(sp)
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, a := range tr.Annotations {
		if a.Key == "k" {
			n++
		}
	}
	if n != 2 {
		t.Fatal(tr)
	}
}
'''
