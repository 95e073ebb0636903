package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C36: requests that travel through several services.
func init() {
	kit.Prop("C36", func(tier string) (us []*kit.Unit) {
		seq := func(n int) {
			for k := 0; k < 5; k++ {
				k := k
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("calls/%d/%d", n, k),
					Rule: fmt.Sprintf("all forests of %d requests, one after another, each answered in one of 5 ways (200, 404 and a body after calls that are all made with one request object, not reached, panic, proxy that hands on the headers it got; first one fixed), tracing with one transport per request handled or per call, services that are the same or different, into a store directly or through a chunking collector", n),
					Body: func(t *mc.T) { c36(t, n, false, k) },
				})
			}
		}
		conc := func(race bool, bound, n int) {
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("concurrent/%d/%d", n, bound), Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of all forests of %d requests in which the calls of one handler, and the requests from outside, are made at the same time", bound, n),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c36(t, n, true, -1) },
			})
		}
		for n := 1; n <= 3; n++ {
			seq(n)
		}
		if tier == "quick" {
			conc(false, 2, 2)
			conc(false, 1, 3)
			conc(true, 1, 2)
			conc(true, 0, 3)
		} else {
			seq(4)
			conc(false, 4, 2)
			conc(false, 2, 3)
			conc(false, 1, 4)
			conc(true, 2, 2)
			conc(true, 1, 3)
		}
		return
	})
}

// call is a request of the plan.
type call struct {
	i      int
	kind   int // 0: 200, 1: 404 with a body, 2: not reached, 3: panic, 4: proxy
	parent *call
	subs   []*call
	saw    appdash.SpanID
	ran    int
	recv   time.Time
	send   time.Time
}

func (c *call) path() string { return fmt.Sprintf("/call/%d", c.i) }

func (c *call) status() int {
	switch c.kind {
	case 1:
		return 404
	case 2, 3:
		return -1
	}
	return 200
}

func (c *call) body() string { return strings.Repeat("x", c.i*3+c.kind) }

type system struct {
	t      *mc.T
	calls  []*call
	conc   bool
	perReq bool // one transport per call
	mws    []func(http.ResponseWriter, *http.Request, http.HandlerFunc)
	col    appdash.Collector
}

// RoundTrip is the network between the services.
func (s *system) RoundTrip(r *http.Request) (*http.Response, error) {
	var c *call
	for _, x := range s.calls {
		if x.path() == r.URL.Path {
			c = x
		}
	}
	mc.Sleep(time.Millisecond)
	if c.kind == 2 {
		return nil, errors.New("connection refused")
	}
	in := &http.Request{Method: r.Method, URL: r.URL, RequestURI: r.URL.RequestURI(), Proto: "HTTP/1.1", Host: r.URL.Host, RemoteAddr: "10.0.0.1:99", Header: http.Header{}, Body: http.NoBody}
	for k, vs := range r.Header {
		in.Header[k] = append([]string(nil), vs...)
	}
	w := newRW()
	p := func() (p any) {
		defer func() { p = recover() }()
		s.mws[c.i%len(s.mws)](w, in, func(w http.ResponseWriter, r *http.Request) { s.handle(c, w, r) })
		return nil
	}()
	if p != nil {
		if p != "handler" {
			panic(p)
		}
		return nil, io.ErrUnexpectedEOF
	}
	w.end()
	mc.Sleep(time.Millisecond)
	return &http.Response{StatusCode: w.status, Header: w.h, ContentLength: int64(len(w.body)), Body: io.NopCloser(bytes.NewBufferString(w.body)), Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
}

// handle is the handler of all services.
func (s *system) handle(c *call, w http.ResponseWriter, r *http.Request) {
	c.ran++
	c.saw = httptrace.SpanID(r)
	c.recv = mc.Now()
	mc.Sleep(time.Millisecond)
	rec := appdash.NewRecorder(httptrace.SpanID(r), s.col)
	tr := &httptrace.Transport{Recorder: rec, Transport: s, SetName: true}
	var one *http.Request
	s.all(c.subs, func(sub *call) {
		x := tr
		if s.perReq {
			x = &httptrace.Transport{Recorder: appdash.NewRecorder(httptrace.SpanID(r), s.col), Transport: s, SetName: true}
		}
		req, err := http.NewRequest("GET", "http://service"+sub.path(), nil)
		if err != nil {
			mc.Fail("NewRequest: %v", err)
		}
		if c.kind == 1 { // this handler has one request object for all of its calls
			if one == nil {
				one = req
			}
			one.URL = req.URL
			req = one
		}
		if c.kind == 4 {
			for k, vs := range r.Header {
				req.Header[k] = vs
			}
		}
		cl := &http.Client{Transport: x}
		resp, err := cl.Do(req)
		s.answer(sub, resp, err)
	})
	mc.Sleep(time.Millisecond)
	c.send = mc.Now()
	switch c.kind {
	case 3:
		panic("handler")
	case 1:
		w.WriteHeader(404)
	}
	io.WriteString(w, c.body())
}

func (s *system) answer(c *call, resp *http.Response, err error) {
	if (err != nil) != (c.status() == -1) {
		mc.Fail("the request %s gives error %v", c.path(), err)
	}
	if err != nil {
		return
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil || string(b) != c.body() || resp.StatusCode != c.status() {
		mc.Fail("the request %s gives status %d, body %q, %v", c.path(), resp.StatusCode, b, err)
	}
	if v := resp.Header.Get(httptrace.HeaderSpanID); v != c.saw.String() {
		mc.Fail("the answer to %s says span %q, its handler saw %v", c.path(), v, c.saw)
	}
}

// all makes calls, one after another or at the same time.
func (s *system) all(cs []*call, f func(c *call)) {
	if !s.conc {
		for _, c := range cs {
			f(c)
		}
		return
	}
	var ts []*mc.T
	for _, c := range cs {
		c := c
		ts = append(ts, s.t.Go(c.path(), func() { f(c) }))
	}
	s.t.Join(ts...)
}

func c36(t *mc.T, n int, conc bool, first int) {
	s := &system{t: t, conc: conc}
	var outer []*call
	for i := 0; i < n; i++ {
		c := &call{i: i}
		if i > 0 {
			if p := t.Choose(i+1, "caller"); p > 0 {
				c.parent = s.calls[p-1]
			}
		}
		kinds := 5
		if conc {
			kinds = 2
		}
		switch {
		case i == 0 && first >= 0:
			c.kind = first
		case conc && n > 2 && i > 0:
		case conc:
			c.kind = 4 * t.Choose(kinds, "kind")
		default:
			c.kind = t.Choose(kinds, "kind")
		}
		if c.parent != nil {
			if c.parent.kind == 2 {
				return // nobody handles the caller
			}
			c.parent.subs = append(c.parent.subs, c)
		} else {
			outer = append(outer, c)
		}
		s.calls = append(s.calls, c)
	}
	ms := appdash.NewMemoryStore()
	var flush func() error
	s.col = appdash.NewLocalCollector(ms)
	wiring := 0
	if conc && n > 2 {
		wiring = 3 * t.Choose(2, "wiring")
	} else {
		wiring = t.Choose(4, "wiring")
	}
	s.perReq = wiring&1 != 0
	if wiring&2 != 0 {
		cc := &appdash.ChunkedCollector{Collector: s.col, MinInterval: time.Hour}
		s.col, flush = cc, cc.Flush
	}
	services := 1 + wiring&1
	for i := 0; i < services; i++ {
		s.mws = append(s.mws, httptrace.Middleware(s.col, &httptrace.MiddlewareConfig{RouteName: func(r *http.Request) string { return r.URL.Path }}))
	}
	s.all(outer, func(c *call) { // from outside, not traced
		req, _ := http.NewRequest("GET", "http://service"+c.path(), nil)
		resp, err := (&http.Client{Transport: s}).Do(req)
		s.answer(c, resp, err)
	})
	if flush != nil {
		must(t, flush(), "Flush")
	}
	c36check(t, s, outer, ms)
	plan := ""
	for _, c := range s.calls {
		p := -1
		if c.parent != nil {
			p = c.parent.i
		}
		plan += fmt.Sprint(p, c.kind, " ")
	}
	mc.State(fmt.Sprint(wiring, plan))
}

func c36check(t *mc.T, s *system, outer []*call, ms *appdash.MemoryStore) {
	traces := map[appdash.ID]bool{}
	want := 0
	for _, o := range outer {
		if o.kind == 2 {
			continue
		}
		if o.saw.Parent != 0 || o.saw.Trace == 0 || traces[o.saw.Trace] {
			t.Fail("the request %s from outside got span %v", o.path(), o.saw)
		}
		traces[o.saw.Trace] = true
		want += c36trace(t, o, ms)
	}
	all, err := ms.Traces(appdash.TracesOpts{})
	must(t, err, "Traces")
	got := 0
	for _, x := range all {
		if !traces[x.ID.Trace] {
			t.Fail("there is a trace %v that belongs to no request", x.ID)
		}
		l, msg := hx.Flatten(x)
		if msg != "" {
			t.Fail("%s", msg)
		}
		got += len(l)
	}
	if got != want {
		t.Fail("%d spans are stored for the requests, which have %d", got, want)
	}
}

// c36trace checks the trace of a request from outside and returns its number of spans.
func c36trace(t *mc.T, o *call, ms *appdash.MemoryStore) int {
	used := map[appdash.ID]bool{}
	n := 0
	tr, err := ms.Trace(o.saw.Trace)
	if err == appdash.ErrTraceNotFound {
		tr = nil
	} else {
		must(t, err, "Trace")
	}
	find := func(id appdash.ID) *appdash.Trace {
		if tr == nil {
			return nil
		}
		return tr.FindSpan(id)
	}
	var check func(c *call)
	check = func(c *call) {
		if c.kind != 2 {
			if c.ran != 1 {
				t.Fail("the handler of %s ran %d times", c.path(), c.ran)
			}
			if c.parent != nil && (c.saw.Trace != c.parent.saw.Trace || c.saw.Parent != c.parent.saw.Span) || used[c.saw.Span] {
				t.Fail("the request %s got span %v, its caller has %v", c.path(), c.saw, c.parent.saw)
			}
			used[c.saw.Span] = true
		}
		served := c.kind < 2 || c.kind == 4
		var se httptrace.ServerEvent
		if served {
			n++
			x := find(c.saw.Span)
			if x == nil || x.ID != c.saw {
				t.Fail("the span %v of %s is not in the trace:\n%v", c.saw, c.path(), tr)
			}
			g := &got{id: x.ID, anns: x.Annotations}
			se = g.serverEvent(t)
			if se.Request.URI != c.path() || se.Response.StatusCode != c.status() || se.Response.ContentLength != int64(len(c.body())) || x.Name() != "Serve "+c.path() {
				t.Fail("the span of %s is %q %+v", c.path(), x.Name(), se)
			}
			if se.ServerRecv.After(c.recv) || se.ServerSend.Before(c.send) {
				t.Fail("%s was handled from %v to %v, recorded from %v to %v", c.path(), c.recv, c.send, se.ServerRecv, se.ServerSend)
			}
		}
		if c.parent == nil {
			return
		}
		// The client's span.
		n++
		var ce *httptrace.ClientEvent
		l, _ := hx.Flatten(tr)
		for _, x := range l {
			g := &got{id: x.T.ID, anns: x.T.Annotations}
			es, err := g.events()
			must(t, err, "UnmarshalEvents")
			for _, e := range es {
				if e, ok := e.(httptrace.ClientEvent); ok && e.Request.URI == c.path() {
					if ce != nil {
						t.Fail("there are two client events for %s", c.path())
					}
					ce = &e
					if x.T.ID.Parent != c.parent.saw.Span || used[x.T.ID.Span] || x.T.Name() != "Request service" {
						t.Fail("the client's span for %s is %v %q, the caller has %v", c.path(), x.T.ID, x.T.Name(), c.parent.saw)
					}
					used[x.T.ID.Span] = true
				}
			}
		}
		if ce == nil {
			t.Fail("there is no client event for %s:\n%v", c.path(), tr)
		}
		if ce.Response.StatusCode != c.status() {
			t.Fail("the client event of %s has status %d", c.path(), ce.Response.StatusCode)
		}
		if served && (ce.ClientSend.After(se.ServerRecv) || ce.ClientRecv.Before(se.ServerSend) || ce.Response.ContentLength != se.Response.ContentLength) {
			t.Fail("client and server events of %s do not fit: %+v %+v", c.path(), ce, se)
		}
		if ce.ClientSend.Before(c.parent.recv) || ce.ClientRecv.After(c.parent.send) {
			t.Fail("the client event of %s, from %v to %v, is not within its caller's from %v to %v", c.path(), ce.ClientSend, ce.ClientRecv, c.parent.recv, c.parent.send)
		}
	}
	var walk func(c *call)
	walk = func(c *call) {
		check(c)
		for _, x := range c.subs {
			walk(x)
		}
	}
	walk(o)
	// The shape, if no handler has panicked.
	panics := false
	var any func(c *call)
	any = func(c *call) {
		panics = panics || c.kind == 3
		for _, x := range c.subs {
			any(x)
		}
	}
	any(o)
	if !panics {
		if tr.ID != o.saw {
			t.Fail("the root of the trace of %s is %v, not %v", o.path(), tr.ID, o.saw)
		}
		l, _ := hx.Flatten(tr)
		for _, x := range l {
			if x.Under != nil && x.Under.ID.Span != x.T.ID.Parent {
				t.Fail("span %v is below %v", x.T.ID, x.Under.ID)
			}
		}
	}
	return n
}
