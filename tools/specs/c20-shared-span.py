ID='c20-shared-span'; PROPERTY='C20'
NEEDS='two requests at the same time'
BREAKS='the span of one request is recorded as that of the other'
EDITS=[('httptrace/server.go','''	return func(rw http.ResponseWriter, r *http.Request, next http.HandlerFunc) {
		spanID, spanFromHeader, err := getSpanID(r.Header)
		if err != nil {
''','''	var spanID *appdash.SpanID
	return func(rw http.ResponseWriter, r *http.Request, next http.HandlerFunc) {
		var spanFromHeader string
		var err error
		spanID, spanFromHeader, err = getSpanID(r.Header)
		if err != nil {
''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	mw := Middleware(ms, &MiddlewareConfig{})
	one := func(span string, h http.HandlerFunc) string {
		r := httptest.NewRequest("GET", "/", nil)
		r.Header.Set("Span-ID", span)
		w := httptest.NewRecorder()
		mw(w, r, h)
		return w.Header().Get("Span-ID")
	}
	a, b := "0000000000000001/0000000000000002", "0000000000000003/0000000000000004"
	// The second request comes while the first is being handled.
	got := one(a, func(http.ResponseWriter, *http.Request) {
		one(b, func(http.ResponseWriter, *http.Request) {})
	})
	if got != a {
		t.Fatal(got)
	}
}
'''
