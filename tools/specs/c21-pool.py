ID='c21-pool'; PROPERTY='C21'
NEEDS='a request whose handler writes nothing after one whose handler wrote something'
BREAKS='the number of body bytes of an earlier request is recorded'
EDITS=[('httptrace/server.go','''		rr := &responseInfoRecorder{ResponseWriter: rw}
''','''		rr := recorders.Get().(*responseInfoRecorder)
		defer recorders.Put(rr)
		rr.ResponseWriter = rw
		rr.statusCode = 0
'''),('httptrace/server.go','''	n, err := r.ResponseWriter.Write(b)
''','''	if !r.wrote {
		r.wrote, r.ContentLength = true, 0
	}
	n, err := r.ResponseWriter.Write(b)
'''),('httptrace/server.go','''	http.ResponseWriter // underlying ResponseWriter to pass-thru to
}
''','''	wrote bool // whether the body has begun

	http.ResponseWriter // underlying ResponseWriter to pass-thru to
}

// recorders holds recorders that can be used again.
var recorders = sync.Pool{New: func() interface{} { return &responseInfoRecorder{} }}
'''),('httptrace/server.go','''		rr.statusCode = 0
''','''		rr.statusCode, rr.wrote = 0, false
''') if False else ('httptrace/server.go','''	"time"

''','''	"sync"
	"time"

''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		ms := appdash.NewMemoryStore()
		mw := Middleware(ms, &MiddlewareConfig{})
		one := func(h http.HandlerFunc) string {
			w := httptest.NewRecorder()
			mw(w, httptest.NewRequest("GET", "/", nil), h)
			id, err := appdash.ParseSpanID(w.Header().Get("Span-ID"))
			if err != nil {
				t.Fatal(err)
			}
			tr, err := ms.Trace(id.Trace)
			if err != nil {
				t.Fatal(err)
			}
			for _, a := range tr.Annotations {
				if a.Key == "Server.Response.ContentLength" {
					return string(a.Value)
				}
			}
			return "none"
		}
		if n := one(func(w http.ResponseWriter, _ *http.Request) { w.Write([]byte("hello")) }); n != "5" {
			t.Fatal(n)
		}
		if n := one(func(w http.ResponseWriter, _ *http.Request) {}); n != "0" {
			t.Fatal(n)
		}
	}
}
'''
