ID='c15-errors-reused'; PROPERTY='C15'
NEEDS='an error after Errors has been called, while the result of that call is still in use'
BREAKS='the slice that Errors returned is overwritten by later errors'
EDITS=[('recorder.go','''	r.errors = nil
''','''	r.errors = r.errors[:0]
''')]
DEMO='''package appdash

import (
	"errors"
	"testing"
)

type demoFail struct{ n int }

func (d *demoFail) Collect(SpanID, ...Annotation) error {
	d.n++
	return errors.New(string(rune('a' + d.n)))
}

func TestDemo(t *testing.T) {
	r := NewRecorder(SpanID{1, 1, 0}, &demoFail{})
	r.Annotation(Annotation{Key: "k"})
	es := r.Errors()
	was := es[0].Error()
	r.Annotation(Annotation{Key: "k"})
	r.Errors()
	if es[0].Error() != was {
		t.Fatal("the errors returned earlier have changed")
	}
}
'''
