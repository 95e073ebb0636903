package main

import (
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/gorilla/mux"
	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verif/hx"
	"verif/mc"
)

// inst is an instance of the web UI.
type inst struct {
	t     *mc.T
	app   *traceapp.App
	store *appdash.MemoryStore
	m     *hx.StoreM
}

func newInst(t *mc.T) *inst { return newInstAt(t, nil, "http://example.com") }

func newInstAt(t *mc.T, r *mux.Router, base string) *inst {
	traceapp.ReloadTemplates = false
	u, err := url.Parse(base)
	if err != nil {
		t.Fail("%v", err)
	}
	in := &inst{t: t, store: appdash.NewMemoryStore(), m: hx.NewM()}
	var rt *traceapp.Router
	if r != nil {
		rt = traceapp.NewRouter(r)
	}
	in.app, err = traceapp.New(rt, u)
	if err != nil {
		t.Fail("New: %v", err)
	}
	in.app.Store, in.app.Queryer = in.store, in.store
	in.app.Log = log.New(io.Discard, "", 0)
	return in
}

// collect puts a span into the store and into the model.
func (in *inst) collect(id appdash.SpanID, as ...appdash.Annotation) {
	if err := in.store.Collect(id, as...); err != nil {
		in.t.Fail("Collect: %v", err)
	}
	in.m.Collect(id, as...)
}

// check compares the store with the model.
func (in *inst) check(what string) {
	var ids []appdash.ID
	for id := range in.m.T {
		ids = append(ids, id)
	}
	if msg := hx.CheckStore(in.store, in.m, ids...); msg != "" {
		in.t.Fail("%s: %s", what, msg)
	}
}

// do sends a request to the UI.
func do(h http.Handler, method, target, body string) *httptest.ResponseRecorder {
	u, err := url.Parse(target)
	if err != nil {
		mc.Fail("the UI cannot be asked for %q: %v", target, err)
	}
	r := &http.Request{Method: method, URL: u, Header: http.Header{}, Host: "example.com", RequestURI: u.RequestURI(),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body))}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}

func (in *inst) get(target string) *httptest.ResponseRecorder { return do(in.app, "GET", target, "") }

// page gets a page that must be served completely.
func (in *inst) page(target string) string {
	w := in.get(target)
	if msg := complete(w); msg != "" {
		in.t.Fail("GET %.200s: %s", target, msg)
	}
	return w.Body.String()
}

// complete tells what is wrong with the answer for a page; "" if it is complete.
func complete(w *httptest.ResponseRecorder) string {
	b := w.Body.String()
	switch {
	case w.Code != 200:
		return fmt.Sprintf("status %d: %.600s", w.Code, b)
	case !strings.HasPrefix(w.Header().Get("Content-Type"), "text/html"):
		return fmt.Sprintf("content type %q", w.Header().Get("Content-Type"))
	case !strings.HasSuffix(strings.TrimSpace(b), "</html>"):
		return fmt.Sprintf("partial page: ...%q", b[max(0, len(b)-80):])
	}
	return length(w)
}

func length(w *httptest.ResponseRecorder) string {
	if l := w.Header().Get("Content-Length"); l != "" && l != strconv.Itoa(w.Body.Len()) {
		return fmt.Sprintf("Content-Length %s for %d bytes", l, w.Body.Len())
	}
	return ""
}

// refused tells what is wrong with an answer that must be an error.
func refused(w *httptest.ResponseRecorder) string {
	b := w.Body.String()
	switch {
	case w.Code < 400:
		return fmt.Sprintf("status %d: %.300q", w.Code, b)
	case strings.Contains(b, "handler panic"):
		return "a panic: " + b
	case strings.Contains(b, "<html"):
		return fmt.Sprintf("status %d with a page", w.Code)
	}
	return length(w)
}

// attr finds attributes in a page.
func attrs(page string, re *regexp.Regexp) (l []string) {
	for _, m := range re.FindAllStringSubmatch(page, -1) {
		l = append(l, html.UnescapeString(m[1]))
	}
	return
}

// ts makes the annotations of a time span.
func tspan(t *mc.T, from, to time.Time) []appdash.Annotation {
	return event(t, appdash.Timespan{S: from, E: to})
}

func event(t *mc.T, e appdash.Event) []appdash.Annotation {
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		t.Fail("MarshalEvent: %v", err)
	}
	return as
}

// shapes lists the trees of n spans: the parent of every span but the first.
func shapes(n int) (l [][]int) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			l = append(l, append([]int(nil), p...))
			return
		}
		for i := 0; i < len(p); i++ {
			rec(append(p, i))
		}
	}
	rec([]int{-1})
	return
}

func pick(tier string, q, th int) int {
	if tier == "quick" {
		return q
	}
	return th
}

// spanOf reads the span that a URL of the UI leads to.
var spanURL = regexp.MustCompile(`^/traces/([0-9a-f]{16})(?:/([0-9a-f]{16}))?$`)
