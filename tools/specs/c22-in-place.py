ID='c22-in-place'; PROPERTY='C22'
NEEDS='a request that already has a Span-ID header'
BREAKS="the header of the caller's own request is overwritten"
EDITS=[('httptrace/header.go','''	h.Set(HeaderSpanID, e.String())
''','''	if v, ok := h[http.CanonicalHeaderKey(HeaderSpanID)]; ok && len(v) == 1 {
		v[0] = e.String()
		return
	}
	h.Set(HeaderSpanID, e.String())
''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"errors"
	"net/http"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type rt struct{}

func (rt) RoundTrip(*http.Request) (*http.Response, error) { return nil, errors.New("no") }

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "http://h/", nil)
	r.Header.Set(HeaderSpanID, "000000000000000a/000000000000000b")
	tr := &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), appdash.NewLocalCollector(appdash.NewMemoryStore())), Transport: rt{}}
	tr.RoundTrip(r)
	if v := r.Header.Get(HeaderSpanID); v != "000000000000000a/000000000000000b" {
		t.Fatal(v)
	}
}
'''
