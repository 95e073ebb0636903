ID='c21-empty-write'; PROPERTY='C21'
NEEDS='a handler that sets its status after an empty Write (too late)'
BREAKS='that status is recorded, not the one that was sent'
EDITS=[('httptrace/server.go','''	if r.statusCode == 0 {
		r.statusCode = http.StatusOK
	}
	n, err''','''	if r.statusCode == 0 && len(b) > 0 {
		r.statusCode = http.StatusOK
	}
	n, err''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	mw := Middleware(ms, &MiddlewareConfig{})
	r, _ := http.NewRequest("GET", "http://h/", nil)
	w := httptest.NewRecorder()
	mw(w, r, func(w http.ResponseWriter, r *http.Request) {
		w.Write(nil)
		w.WriteHeader(404)
	})
	l, _ := ms.Traces(appdash.TracesOpts{})
	var e ServerEvent
	if err := appdash.UnmarshalEvent(l[0].Annotations, &e); err != nil {
		t.Fatal(err)
	}
	if e.Response.StatusCode != w.Code {
		t.Fatal(e.Response.StatusCode, w.Code)
	}
}
'''
