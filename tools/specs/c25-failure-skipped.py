ID='c25-failure-skipped'; PROPERTY='C25'
NEEDS='a store that fails followed by one that has the trace'
BREAKS='the failure is not reported, an answer of a later store is given'
EDITS=[('multi.go','''	for _, s := range ms.stores {
		trace, err := s.Trace(t)
		if err == ErrTraceNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		return trace, nil
	}
	return nil, ErrTraceNotFound
''','''	failure := ErrTraceNotFound
	for _, s := range ms.stores {
		trace, err := s.Trace(t)
		if err == nil {
			return trace, nil
		}
		if failure == ErrTraceNotFound {
			failure = err
		}
	}
	return nil, failure
''')]
DEMO='''package appdash

import (
	"errors"
	"testing"
)

type bad struct{ Store }

func (bad) Trace(ID) (*Trace, error) { return nil, errors.New("bad") }

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 2, 0})
	if tr, err := MultiStore(bad{}, ms).Trace(1); err == nil {
		t.Fatal("the failure of the first store is not reported:", tr)
	}
	if tr, err := MultiStore(ms, bad{}).Trace(1); err != nil {
		t.Fatal(tr, err)
	}
}
'''
