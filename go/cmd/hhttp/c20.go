package main

import (
	"context"
	"fmt"
	"net/http"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// spanHeader is a value of a span header and the span it stands for.
type spanHeader struct {
	vs    []string
	id    *appdash.SpanID
	given bool
}

func sid(a, b, c uint64) *appdash.SpanID {
	id := hx.ID(a, b, c)
	return &id
}

var spanHeaders = []spanHeader{
	{},
	{vs: []string{"0000000000000001/0000000000000002/0000000000000003"}, id: sid(1, 2, 3), given: true},
	{vs: []string{"0000000000000001/0000000000000002"}, id: sid(1, 2, 0), given: true},
	{vs: []string{"ffffffffffffffff/8000000000000000/ffffffffffffffff"}, id: sid(1<<64-1, 1<<63, 1<<64-1), given: true},
	{vs: []string{"A/b/C"}, id: sid(10, 11, 12), given: true},
	{vs: []string{"4/5/6", "7/8/9"}, id: sid(4, 5, 6), given: true},
	{vs: []string{""}},
	{vs: []string{"", "7/8/9"}},
	{vs: []string{"1/2/3/4"}, given: true},
	{vs: []string{"1"}, given: true},
	{vs: []string{"x/y"}, given: true},
	{vs: []string{"/"}, given: true},
	{vs: []string{"1/2/"}, given: true},
	{vs: []string{"10000000000000000/2"}, given: true},
	{vs: []string{"-1/2"}, given: true},
	{vs: []string{" "}, given: true},
	{vs: []string{strings.Repeat("/", 300)}, given: true},
}

// C20: the middleware attaches every request to the right span.
func init() {
	kit.Prop("C20", func(tier string) (us []*kit.Unit) {
		for shard := 0; shard < 2; shard++ {
			shard := shard
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("headers/%d", shard),
				Rule: "all combinations of 17 values of Span-ID and 17 of Parent-Span-ID (absent, valid, repeated, malformed), 8 configurations, handlers that send nothing, a body, a status, a Span-ID of their own or panic, collectors that work or fail; a second request through the same middleware",
				Body: func(t *mc.T) { c20(t, shard == 1) },
			})
		}
		add := func(race bool, bound, n int) {
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("concurrent/%d/%d", n, bound), Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of %d requests at once (given span, child of a given parent, root) through one middleware, with every configuration", bound, n),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c20conc(t, n) },
			})
		}
		depth, many := 3, 150
		if tier != "quick" {
			depth, many = 4, 3000
		}
		us = append(us, &kit.Unit{
			Name: fmt.Sprintf("sequence/%d", depth),
			Rule: fmt.Sprintf("all sequences of %d requests through one middleware, each with one of 4 values of Span-ID and of Parent-Span-ID (absent, two valid ones, malformed), requests that are alike among them", depth),
			Body: func(t *mc.T) { c20seq(t, depth, 0) },
		}, &kit.Unit{
			Name: "many",
			Rule: fmt.Sprintf("%d requests through one middleware, for every pair of 16 kinds of requests by turns", many),
			Body: func(t *mc.T) { c20seq(t, 2, many) },
		})
		if tier == "quick" {
			add(false, 2, 2)
			add(false, 1, 3)
			add(true, 1, 2)
		} else {
			add(false, 4, 2)
			add(false, 2, 3)
			add(true, 2, 2)
			add(true, 1, 3)
		}
		return
	})
}

// conf is a configuration of the middleware and the notes of its callbacks.
type conf struct {
	cfg   *httptrace.MiddlewareConfig
	own   bool
	route string
	user  string
	set   map[*http.Request]appdash.SpanID
}

func newConf(k int) *conf {
	c := &conf{cfg: &httptrace.MiddlewareConfig{}, own: k&1 != 0}
	if c.own {
		c.cfg.SetContextSpan = func(r *http.Request, id appdash.SpanID) {
			*r = *r.WithContext(context.WithValue(r.Context(), ctxSpan, id))
		}
	}
	if k&2 != 0 {
		c.cfg.RouteName = func(r *http.Request) string { return "route of " + r.URL.Path }
	}
	if k&4 != 0 {
		c.cfg.CurrentUser = func(r *http.Request) string { return "user of " + r.URL.Path }
	}
	return c
}

type ctxKey int

const ctxSpan ctxKey = 1

// seen is the span that a handler sees.
func (c *conf) seen(r *http.Request) (id appdash.SpanID, ok bool) {
	if c.own {
		id, ok = r.Context().Value(ctxSpan).(appdash.SpanID)
		return
	}
	id, ok = httptrace.SpanIDFromContext(r.Context())
	if ok && httptrace.SpanID(r) != id {
		ok = false
	}
	return
}

// request makes a request with span headers.
func request(path string, hs, ps spanHeader) *http.Request {
	r, err := http.NewRequest("GET", "http://example.com"+path, nil)
	if err != nil {
		panic(err)
	}
	r.Header.Set("X-Other", "1")
	if hs.vs != nil {
		r.Header[http.CanonicalHeaderKey(httptrace.HeaderSpanID)] = hs.vs
	}
	if ps.vs != nil {
		r.Header[http.CanonicalHeaderKey(httptrace.HeaderParentSpanID)] = ps.vs
	}
	return r
}

// checkSpan checks that a request with the given headers may be attached to a span.
func checkSpan(t *mc.T, id appdash.SpanID, hs, ps spanHeader, used map[appdash.ID]bool) {
	isChild := ps.id != nil && id.Trace == ps.id.Trace && id.Parent == ps.id.Span && !used[id.Span] && id.Span != ps.id.Span
	isRoot := id.Parent == 0 && !used[id.Trace] && !used[id.Span]
	ok := false
	switch {
	case hs.id != nil:
		ok = id == *hs.id
	case hs.given: // malformed
		ok = isRoot || isChild
	case ps.id != nil:
		ok = isChild
	default:
		ok = isRoot
	}
	if !ok {
		t.Fail("a request with Span-ID %q and Parent-Span-ID %q is attached to span %v", hs.vs, ps.vs, id)
	}
	if hs.id == nil {
		used[id.Span] = true
		if id.Parent == 0 {
			used[id.Trace] = true
		}
	}
}

func c20(t *mc.T, fails bool) {
	c := newConf(t.Choose(8, "configuration"))
	mw := httptrace.Middleware(capture{fails: fails}, c.cfg)
	used := map[appdash.ID]bool{}
	first := t.Choose(len(spanHeaders), "Span-ID")
	parent := t.Choose(len(spanHeaders), "Parent-Span-ID")
	handler := t.Choose(5, "handler")
	one := func(path string, hs, ps spanHeader) {
		before := len(collected())
		r := request(path, hs, ps)
		was := headerString(r.Header)
		w := newRW()
		runs := 0
		var saw appdash.SpanID
		panicked := func() (p bool) {
			defer func() { p = recover() != nil }()
			mw(w, r, func(w http.ResponseWriter, r2 *http.Request) {
				runs++
				id, ok := c.seen(r2)
				if !ok {
					t.Fail("the handler cannot see the span")
				}
				saw = id
				if r2.Method != r.Method || r2.URL.String() != r.URL.String() || headerString(r2.Header) != was {
					t.Fail("the handler gets another request: %v", r2)
				}
				switch handler {
				case 1:
					w.Write([]byte("body"))
				case 2:
					w.WriteHeader(404)
				case 3:
					w.Header().Set(httptrace.HeaderSpanID, "0000000000000077/0000000000000078")
				case 4:
					panic("handler")
				}
			})
			return
		}()
		if runs != 1 {
			t.Fail("the handler ran %d times", runs)
		}
		checkSpan(t, saw, hs, ps, used)
		if headerString(r.Header) != was {
			t.Fail("the headers of the request were changed from %s to %s", was, headerString(r.Header))
		}
		if panicked {
			if handler != 4 {
				t.Fail("the middleware panics")
			}
			return
		}
		if handler == 4 {
			t.Fail("a panic of the handler was swallowed")
		}
		w.end()
		if v := w.h[http.CanonicalHeaderKey(httptrace.HeaderSpanID)]; len(v) != 1 || v[0] != saw.String() {
			t.Fail("the response says span %q, the handler saw %v", v, saw)
		}
		l := collected()[before:]
		if len(l) != 1 {
			t.Fail("%d spans were collected for the request", len(l))
		}
		if l[0].id != saw {
			t.Fail("span %v was collected, the handler saw %v", l[0].id, saw)
		}
		e := l[0].serverEvent(t)
		route, user := "", ""
		if c.cfg.RouteName != nil {
			route = "route of " + path
		}
		if c.cfg.CurrentUser != nil {
			user = "user of " + path
		}
		if e.Route != route || e.User != user || e.Request.Method != "GET" || e.Request.URI != path || e.Request.Host != "example.com" {
			t.Fail("the event of request %s is %+v", path, e)
		}
		want := "Serve " + route
		if route == "" {
			want = "Serve example.com" + path
		}
		if n := l[0].name(); n != want {
			t.Fail("the span is named %q instead of %q", n, want)
		}
	}
	one("/a/b", spanHeaders[first], spanHeaders[parent])
	one("/c", spanHeaders[first], spanHeaders[(parent+2)%len(spanHeaders)])
	mc.State(fmt.Sprint(first, parent, handler))
}

// c20seq sends depth requests, chosen one by one, or n requests: the chosen ones by turns.
func c20seq(t *mc.T, depth, n int) {
	hs := []spanHeader{spanHeaders[0], spanHeaders[1], spanHeaders[4], spanHeaders[8]}
	mw := httptrace.Middleware(capture{}, newConf(0).cfg)
	used := map[appdash.ID]bool{}
	var chosen [][2]int
	for i := 0; i < n || i < depth; i++ {
		var k [2]int
		if i < depth {
			k = [2]int{t.Choose(len(hs), "Span-ID"), t.Choose(len(hs), "Parent-Span-ID")}
			chosen = append(chosen, k)
		} else {
			k = chosen[i%depth]
		}
		before := len(collected())
		w := newRW()
		var saw []appdash.SpanID
		mw(w, request("/", hs[k[0]], hs[k[1]]), func(w http.ResponseWriter, r *http.Request) { saw = append(saw, httptrace.SpanID(r)) })
		if len(saw) != 1 {
			t.Fail("the handler of request %d ran %d times", i+1, len(saw))
		}
		checkSpan(t, saw[0], hs[k[0]], hs[k[1]], used)
		w.end()
		if v := w.h.Get(httptrace.HeaderSpanID); v != saw[0].String() {
			t.Fail("the response to request %d says span %q, the handler saw %v", i+1, v, saw[0])
		}
		if l := collected()[before:]; len(l) != 1 || l[0].id != saw[0] {
			t.Fail("for request %d, with span %v, %d spans were collected", i+1, saw[0], len(l))
		}
	}
	mc.State(fmt.Sprint(chosen))
}

func c20conc(t *mc.T, n int) {
	c := newConf(t.Choose(8, "configuration"))
	mw := httptrace.Middleware(capture{points: true}, c.cfg)
	kinds := []spanHeader{{}, spanHeaders[1], spanHeaders[9]}
	type req struct {
		hs, ps spanHeader
		saw    appdash.SpanID
		w      *rw
		path   string
	}
	var rs []*req
	var ts []*mc.T
	for i := 0; i < n; i++ {
		q := &req{w: newRW(), path: fmt.Sprintf("/%d", i)}
		switch t.Choose(len(kinds), "kind of request") {
		case 0:
		case 1:
			q.hs = spanHeader{id: sid(50, uint64(60+i), 7), given: true}
			q.hs.vs = []string{q.hs.id.String()}
		case 2: // all below the same parent
			q.ps = spanHeader{id: sid(50, 60, 7), given: true}
			q.ps.vs = []string{q.ps.id.String()}
		}
		rs = append(rs, q)
	}
	for _, q := range rs {
		q := q
		ts = append(ts, t.Go("request "+q.path, func() {
			mw(q.w, request(q.path, q.hs, q.ps), func(w http.ResponseWriter, r *http.Request) {
				id, ok := c.seen(r)
				if !ok {
					mc.Fail("the handler of %s cannot see the span", q.path)
				}
				q.saw = id
				w.Write([]byte(r.URL.Path))
				mc.Point("handler")
				if again, _ := c.seen(r); again != id {
					mc.Fail("the span of %s has changed from %v to %v", q.path, id, again)
				}
				w.Write([]byte(id.String()))
			})
		}))
	}
	t.Join(ts...)
	l := collected()
	if len(l) != n {
		t.Fail("%d spans were collected for %d requests", len(l), n)
	}
	used := map[appdash.ID]bool{}
	for _, q := range rs {
		checkSpan(t, q.saw, q.hs, q.ps, used)
		if q.w.body != q.path+q.saw.String() {
			t.Fail("the body of %s is %q", q.path, q.w.body)
		}
		if v := q.w.h.Get(httptrace.HeaderSpanID); v != q.saw.String() {
			t.Fail("the response of %s says span %q, the handler saw %v", q.path, v, q.saw)
		}
		n := 0
		for _, g := range l {
			if g.id == q.saw {
				n++
				if e := g.serverEvent(t); e.Request.URI != q.path || e.Response.ContentLength != int64(len(q.w.body)) {
					t.Fail("the event for %s is %+v", q.path, e)
				}
			}
		}
		if n != 1 {
			t.Fail("%d spans %v were collected for %s", n, q.saw, q.path)
		}
	}
	mc.State(fmt.Sprint(used))
}
