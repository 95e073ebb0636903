ID='c37-last'; PROPERTY='C37'
NEEDS='a packet of the last span of a trace that cannot be sent'
BREAKS='the command goes on and ends without an error'
EDITS=[('cmd/appdash/sample_data.go','''			if errs := rec.Errors(); len(errs) > 0 {
''','''			if errs := rec.Errors(); len(errs) > 0 && j < numSpans {
''')]
PKG='cmd/appdash'; WEB=True
DEMO='''package main

import (
	"errors"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type failing struct {
	at, n int
	failed bool
}

func (f *failing) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	f.n++
	if f.n == f.at {
		f.failed = true
		return errors.New("cannot be sent")
	}
	return nil
}

func TestDemo(t *testing.T) {
	for at := 1; at < 60; at++ {
		f := &failing{at: at}
		if err := sampleData(f); err == nil && f.failed {
			t.Fatalf("packet %d could not be sent: no error", at)
		}
	}
}
'''
