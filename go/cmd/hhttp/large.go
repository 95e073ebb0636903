package main

import (
	"fmt"
	"net/http"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

func init() {
	kit.Large("C20", "requests", "%d requests through one middleware: without headers, with the span of one of five callers, with one of many traces, with garbage", 2000, 20000, c20large)
	kit.Large("C21", "bodies", "handlers that write up to 1 MB at once, or %d times; with and without flushing", 3000, 20000, c21large)
	kit.Large("C22", "requests", "%d requests through one transport, one after another or with hundreds in flight, and cancellations of each", 600, 4000, c22large)
	kit.Large("C23", "headers", "%d headers, every third one redacted, with many values", 200, 1000, c23large)
	kit.Large("C36", "calls", "a chain of 40 calls, and %d calls made by one handler, answered in all ways by turns", 100, 250, c36large)
}

func c20large(t *mc.T, n int) {
	mw := httptrace.Middleware(capture{}, &httptrace.MiddlewareConfig{})
	used := map[appdash.ID]bool{}
	for i := 0; i < n; i++ {
		r, _ := http.NewRequest("GET", fmt.Sprint("http://example.com/", i), nil)
		var parent appdash.SpanID
		switch i % 4 {
		case 1:
			parent = hx.ID(uint64(1000+i%5), uint64(2000+i%5), 0)
			if i%8 == 1 {
				parent.Parent = 77
			}
			r.Header.Set(httptrace.HeaderParentSpanID, parent.String())
		case 2:
			parent = hx.ID(uint64(5000+i), uint64(6000+i), uint64(i%3))
			r.Header.Set(httptrace.HeaderParentSpanID, parent.String())
		case 3:
			r.Header.Set(httptrace.HeaderParentSpanID, "garbage")
		}
		w := newRW()
		var saw appdash.SpanID
		before := len(collected())
		mw(w, r, func(w http.ResponseWriter, r *http.Request) { saw = httptrace.SpanID(r) })
		w.end()
		if i > 100 && i%50 != 0 { // (the list of all grows)
			before = -1
		}
		if before >= 0 {
			l := collected()[before:]
			if len(l) != 1 || l[0].id != saw {
				t.Fail("request %d: the handler saw span %v, collected are %v", i, saw, l)
			}
		}
		if w.h.Get(httptrace.HeaderSpanID) != saw.String() {
			t.Fail("request %d: the handler saw span %v, the client gets %q", i, saw, w.h.Get(httptrace.HeaderSpanID))
		}
		if used[saw.Span] || saw.Span == 0 || saw.Trace == 0 || saw.Span == parent.Span {
			t.Fail("request %d: span %v is not new", i, saw)
		}
		used[saw.Span] = true
		if parent.Trace != 0 {
			if saw.Trace != parent.Trace || saw.Parent != parent.Span {
				t.Fail("request %d with parent %v: span %v", i, parent, saw)
			}
		} else if saw.Parent != 0 || used[saw.Trace] && saw.Trace != saw.Span {
			t.Fail("request %d: span %v is no new root", i, saw)
		} else {
			used[saw.Trace] = true
		}
	}
	if g := len(collected()); g != n {
		t.Fail("%d spans are collected for %d requests", g, n)
	}
	mc.State("done")
}

func c21large(t *mc.T, n int) {
	mw := httptrace.Middleware(capture{}, &httptrace.MiddlewareConfig{})
	flush := t.Choose(2, "flush") == 1
	var sizes []int
	many := t.Choose(2, "many writes") == 1
	if many {
		for i := 0; i < n; i++ {
			sizes = append(sizes, i%700)
		}
	} else {
		sizes = []int{1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 65537, 1 << 20, 3}
	}
	run := func(one func(http.ResponseWriter, *http.Request, http.HandlerFunc), sizes []int, from int) (w *rw, sum int) {
		w = newRW()
		// the body is compared by pieces
		at := from
		var hw http.ResponseWriter = &pieces{rw: w, t: t, at: &at}
		if flush {
			hw = struct {
				http.ResponseWriter
				http.Flusher
			}{hw, flushRW{w}}
		}
		r, _ := http.NewRequest("GET", "http://example.com/p", nil)
		h := func(w http.ResponseWriter, r *http.Request) {
			k := from
			for i, s := range sizes {
				b := make([]byte, s)
				for j := range b {
					b[j] = byte(k)
					k = k*5 + 3
				}
				m, err := w.Write(b)
				if err != nil || m != s {
					t.Fail("write %d of %d bytes: %d, %v", i, s, m, err)
				}
				for j := range b { // the handler may use its buffer again
					b[j] = 'x'
				}
				sum += s
				if flush && i%7 == 6 {
					w.(http.Flusher).Flush()
				}
			}
		}
		if one == nil {
			h(hw, r)
		} else {
			one(hw, r, h)
		}
		w.end()
		return
	}
	check := func(sizes []int, from int) {
		before := len(collected())
		p, sum := run(nil, sizes, from)
		m, _ := run(mw, sizes, from)
		if p.status != m.status || p.flushes != m.flushes || p.length != m.length {
			t.Fail("with the middleware: status %d, %d bytes, %d flushes; without: %d, %d, %d", m.status, m.length, m.flushes, p.status, p.length, p.flushes)
		}
		l := collected()[before:]
		if len(l) != 1 {
			t.Fail("%d spans", len(l))
		}
		if e := l[0].serverEvent(t); e.Response.ContentLength != int64(sum) || e.Response.StatusCode != 200 {
			t.Fail("a body of %d bytes and status %d are recorded; sent were %d bytes", e.Response.ContentLength, e.Response.StatusCode, sum)
		}
	}
	check(sizes, 7)
	for i := 0; i < 300; i++ { // many requests
		check([]int{i, 1, i % 5}, i)
	}
	mc.State(fmt.Sprint(flush, many))
}

// pieces is a response writer that compares what it gets with what is to come.
type pieces struct {
	*rw
	t  *mc.T
	at *int
}

func (p *pieces) Write(b []byte) (int, error) {
	if p.status == 0 {
		p.WriteHeader(200)
	}
	if p.length < 0 {
		p.length = 0
	}
	p.length += len(b)
	for i := range b {
		if b[i] != byte(*p.at) {
			p.t.Fail("byte %d of the body is %x and must be %x", i, b[i], byte(*p.at))
		}
		*p.at = *p.at*5 + 3
	}
	return len(b), nil
}

func c22large(t *mc.T, n int) {
	rec := appdash.NewRecorder(hx.ID(30, 31, 32), capture{})
	in := &cancelInner{}
	tr := &httptrace.Transport{Recorder: rec, Transport: in}
	at := map[string]*http.Request{} // in the inner transport
	cancelled := map[*http.Request]int{}
	used := map[appdash.ID]bool{31: true}
	all := t.Choose(2, "all at once") == 1
	if all {
		n /= 5
		if n > 200 {
			n = 200
		}
	}
	in.cancel = func(r *http.Request) { cancelled[r]++ }
	in.act = func(r *http.Request) (*http.Response, error) {
		at[r.URL.Path] = r
		id, err := appdash.ParseSpanID(r.Header.Get(httptrace.HeaderSpanID))
		must(t, err, "Span-ID")
		if id.Trace != 30 || id.Parent != 31 || used[id.Span] {
			t.Fail("%v carries span %v", r.URL, id)
		}
		used[id.Span] = true
		if all {
			mc.SetExt("in " + r.URL.Path)
			mc.WaitExt("out " + r.URL.Path)
		}
		if len(r.URL.Path)%2 == 1 && strings.HasSuffix(r.URL.Path, "3") {
			return nil, errC22
		}
		return &http.Response{StatusCode: 200 + len(at)%300, ContentLength: int64(len(at))}, nil
	}
	var reqs []*http.Request
	for i := 0; i < n; i++ {
		r, _ := http.NewRequest("GET", fmt.Sprint("http://example.com/", i), nil)
		reqs = append(reqs, r)
	}
	trip := func(i int) {
		resp, err := tr.RoundTrip(reqs[i])
		if (err == nil) == (resp == nil) {
			t.Fail("request %d: %v, %v", i, resp, err)
		}
	}
	if all {
		var ts []*mc.T
		for i := range reqs {
			i := i
			ts = append(ts, t.Go("request", func() { trip(i) }))
		}
		for i := range reqs {
			mc.WaitExt(fmt.Sprint("in /", i))
		}
		for i := range reqs {
			if i%3 == 0 {
				tr.CancelRequest(reqs[i])
				if g := cancelled[at[reqs[i].URL.Path]]; g != 1 || len(cancelled) != i/3+1 {
					t.Fail("the cancellation of request %d of %d in flight reaches the inner transport %d times (%d of all)", i, n, g, len(cancelled))
				}
			}
		}
		for i := range reqs {
			mc.SetExt(fmt.Sprint("out /", n-1-i))
		}
		t.Join(ts...)
	} else {
		for i := range reqs {
			trip(i)
		}
	}
	were := len(cancelled)
	for i := range reqs {
		tr.CancelRequest(reqs[i])
		if len(cancelled) != were {
			t.Fail("request %d of %d is over, and its cancellation reaches the inner transport", i, n)
		}
	}
	l := collected()
	if len(l) != n {
		t.Fail("%d spans are collected for %d requests", len(l), n)
	}
	seen := map[string]bool{}
	for _, g := range l {
		e := g.clientEvent(t)
		if used[g.id.Span] || g.id.Trace != 30 || g.id.Parent != 31 || seen[e.Request.URI] || at[e.Request.URI] == nil {
			t.Fail("request %s is recorded in span %v", e.Request.URI, g.id)
		}
		used[g.id.Span], seen[e.Request.URI] = true, true
	}
	mc.State(fmt.Sprint(all))
}

func c23large(t *mc.T, n int) {
	place := t.Choose(len(c23places), "place")
	h, tr := http.Header{}, http.Header{}
	var list []string
	for i := 0; i < n; i++ {
		name := http.CanonicalHeaderKey(fmt.Sprintf("x-header-%d", i))
		to := h
		if i%7 == 6 {
			to = tr
		}
		for k := 0; k < 1+i%4; k++ {
			to[name] = append(to[name], fmt.Sprintf("value of %d and %d.", i, k))
		}
		if i%40 == 39 {
			to[name] = append(to[name], strings.Repeat(fmt.Sprintf("long %d ", i), 2000))
		}
		if i%3 == 1 {
			spelt := name
			if i%2 == 0 {
				spelt = strings.ToUpper(name)
			}
			list = append(list, spelt)
		}
	}
	c23send(t, place, list, h, tr)
	c23send(t, place, list[:1], h, tr)
	c23send(t, place, append(list, "X-Header-0", "x-header-6"), h, tr)
}

func c36large(t *mc.T, n int) {
	deep := t.Choose(2, "chain") == 1
	s := &system{t: t, perReq: t.Choose(2, "transport per call") == 1}
	var outer []*call
	if deep {
		n = 40
	}
	for i := 0; i < n; i++ {
		c := &call{i: i}
		switch {
		case i == 0:
		case deep:
			c.kind = []int{0, 1, 4}[i%3]
			c.parent = s.calls[i-1]
		default:
			c.kind = i % 5
			c.parent = s.calls[0]
			if i%10 == 9 { // another from outside
				c.parent = nil
			}
			if i%7 == 6 && s.calls[i-1].kind != 2 {
				c.parent = s.calls[i-1]
			}
		}
		if c.parent != nil {
			c.parent.subs = append(c.parent.subs, c)
		} else {
			outer = append(outer, c)
		}
		s.calls = append(s.calls, c)
	}
	ms := appdash.NewMemoryStore()
	s.col = appdash.NewLocalCollector(ms)
	for i := 0; i < 3; i++ {
		s.mws = append(s.mws, httptrace.Middleware(s.col, &httptrace.MiddlewareConfig{RouteName: func(r *http.Request) string { return r.URL.Path }}))
	}
	s.all(outer, func(c *call) {
		req, _ := http.NewRequest("GET", "http://service"+c.path(), nil)
		resp, err := (&http.Client{Transport: s}).Do(req)
		s.answer(c, resp, err)
	})
	c36check(t, s, outer, ms)
	mc.State(fmt.Sprint(deep, s.perReq))
}
