ID='c22-resp-and-err'; PROPERTY='C22'
NEEDS='an inner transport that returns an error together with a response'
BREAKS='the status of that response is recorded instead of -1'
EDITS=[('httptrace/client.go','''	if err == nil {
		e.Response = responseInfo(resp)
	} else {
		e.Response.StatusCode = -1
	}
''','''	e.Response.StatusCode = -1
	if resp != nil {
		e.Response = responseInfo(resp)
	}
''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"errors"
	"net/http"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type both struct{}

func (both) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}}, errors.New("broken off")
}

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	rec := appdash.NewRecorder(appdash.SpanID{1, 2, 0}, ms)
	tp := &Transport{Recorder: rec, Transport: both{}}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	tp.RoundTrip(r)
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	for _, a := range tr.Annotations {
		if a.Key == "Client.Response.StatusCode" && string(a.Value) != "-1" {
			t.Fatalf("%s", a.Value)
		}
	}
}
'''
