ID='c02-dedupe'; PROPERTY='C02'
NEEDS='a later collection that repeats the last annotation of the span'
BREAKS='annotations equal to the last one of the span are taken for a repeated delivery and lost'
EDITS=[('store.go','''		s.Annotations = append(s.Annotations, as...)
		return nil''','''		if n := len(s.Annotations); n > 0 && len(as) > 0 && s.Annotations[n-1].Key == as[len(as)-1].Key && string(s.Annotations[n-1].Value) == string(as[len(as)-1].Value) {
			return nil // delivered already
		}
		s.Annotations = append(s.Annotations, as...)
		return nil''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	a, b := Annotation{Key: "k", Value: []byte("v")}, Annotation{Key: "l", Value: []byte("v")}
	ms.Collect(SpanID{1, 1, 0}, a)
	ms.Collect(SpanID{1, 1, 0}, b, a)
	tr, _ := ms.Trace(1)
	if len(tr.Annotations) != 3 {
		t.Fatal(tr.Annotations)
	}
}
'''
