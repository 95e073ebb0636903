package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"net/http"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/mc"
)

// got is a span that reached the collector.
type got struct {
	id   appdash.SpanID
	anns appdash.Annotations
}

// capture is a collector that keeps what it gets.
type capture struct{ points, fails bool }

func (c capture) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if c.points {
		mc.Point("collect")
	}
	g := &got{id: id}
	for _, a := range as {
		g.anns = append(g.anns, appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)})
	}
	mc.Rec(g)
	if c.fails {
		return fmt.Errorf("the collector fails")
	}
	return nil
}

// collected lists the spans collected, without the reports of failures.
func collected() (l []*got) {
	for _, r := range mc.Records() {
		if g, ok := r.(*got); ok {
			report := false
			for _, a := range g.anns {
				report = report || a.Key == "Msg" && strings.HasPrefix(string(a.Value), "Recorder.")
			}
			if !report {
				l = append(l, g)
			}
		}
	}
	return
}

// events decodes the events of a span.
func (g *got) events() (es []appdash.Event, err error) {
	err = appdash.UnmarshalEvents(g.anns, &es)
	return
}

// serverEvent gives the one server event of a span.
func (g *got) serverEvent(t *mc.T) (e httptrace.ServerEvent) {
	es, err := g.events()
	must(t, err, "UnmarshalEvents")
	n := 0
	for _, x := range es {
		if s, ok := x.(httptrace.ServerEvent); ok {
			e = s
			n++
		}
	}
	if n != 1 {
		t.Fail("%d server events are recorded for span %v: %s", n, g.id, hx.Anns(g.anns))
	}
	return
}

func (g *got) clientEvent(t *mc.T) (e httptrace.ClientEvent) {
	es, err := g.events()
	must(t, err, "UnmarshalEvents")
	n := 0
	for _, x := range es {
		if s, ok := x.(httptrace.ClientEvent); ok {
			e = s
			n++
		}
	}
	if n != 1 {
		t.Fail("%d client events are recorded for span %v: %s", n, g.id, hx.Anns(g.anns))
	}
	return
}

// name gives the recorded name of a span.
func (g *got) name() string {
	for _, a := range g.anns {
		if a.Key == "Name" {
			return string(a.Value)
		}
	}
	return ""
}

// headerString writes a header in canonical order.
func headerString(h http.Header, except ...string) string {
	var l []string
keys:
	for k, vs := range h {
		for _, x := range except {
			if http.CanonicalHeaderKey(k) == http.CanonicalHeaderKey(x) {
				continue keys
			}
		}
		l = append(l, fmt.Sprintf("%s=%q", k, vs))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// rw is a response writer that behaves like the one of net/http.
type rw struct {
	h        http.Header
	status   int // of the final header; 0: not sent
	sent     string
	infos    []string
	body     string
	flushes  int
	length   int // declared content length, or -1
	outcomes func(n int) (int, error)
	hijacked bool
	deadline time.Time
	raw      bytes.Buffer // what was written on the connection after it was hijacked
}

func newRW() *rw { return &rw{h: http.Header{}, length: -1} }

func (w *rw) Header() http.Header { return w.h }

func (w *rw) WriteHeader(code int) {
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if w.status != 0 || w.hijacked {
		return // superfluous
	}
	if code < 200 && code != http.StatusSwitchingProtocols {
		w.infos = append(w.infos, fmt.Sprint(code, headerString(w.h, httptrace.HeaderSpanID)))
		return
	}
	w.status = code
	w.sent = headerString(w.h, httptrace.HeaderSpanID)
	if cl := w.h.Get("Content-Length"); cl != "" {
		fmt.Sscan(cl, &w.length)
	}
}

func (w *rw) Write(p []byte) (int, error) {
	if w.hijacked {
		return 0, http.ErrHijacked
	}
	if w.status == 0 {
		w.WriteHeader(http.StatusOK)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if w.status == 204 || w.status == 304 || w.status < 200 {
		return 0, http.ErrBodyNotAllowed
	}
	if w.length >= 0 && len(w.body)+len(p) > w.length {
		return 0, http.ErrContentLength
	}
	n, err := len(p), error(nil)
	if w.outcomes != nil {
		n, err = w.outcomes(len(p))
	}
	w.body += string(p[:n])
	return n, err
}

// end is what the server does when the handler has returned.
func (w *rw) end() {
	if w.status == 0 {
		w.WriteHeader(http.StatusOK)
	}
}

func (w *rw) client() string {
	return fmt.Sprintf("informational %q, status %d, headers [%s], body %q, %d flushes, hijacked %v, raw %q, deadline %v", w.infos, w.status, w.sent, w.body, w.flushes, w.hijacked, w.raw.String(), w.deadline)
}

// flushRW can flush as well.
type flushRW struct{ *rw }

// SetWriteDeadline is for http.ResponseController.
func (w flushRW) SetWriteDeadline(t time.Time) error {
	w.deadline = t
	return nil
}

// hijackRW can flush and be hijacked.
type hijackRW struct{ flushRW }

// Hijack hands out a connection (nil) and a writer to it.
func (w hijackRW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if w.hijacked {
		return nil, nil, http.ErrHijacked
	}
	w.rw.hijacked = true
	return nil, bufio.NewReadWriter(bufio.NewReader(strings.NewReader("from the client")), bufio.NewWriter(&w.raw)), nil
}

func (w flushRW) Flush() {
	if w.hijacked {
		return
	}
	if w.status == 0 {
		w.WriteHeader(http.StatusOK)
	}
	w.flushes++
}
