package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C22: the tracing transport.
func init() {
	kit.Prop("C22", func(tier string) (us []*kit.Unit) {
		us = append(us, &kit.Unit{
			Name: "transparent",
			Rule: "all combinations of 9 requests, 7 outcomes of the inner transport, SetName, collectors that work or fail; two requests in a row; time passes before, during and after",
			Body: c22seq,
		})
		add := func(race bool, bound, n, cancels int) {
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("concurrent/%dx%d/%d", n, cancels, bound), Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of %d requests in flight at once, with any outcome, and %d cancellations of any of them or of a request never made", bound, n, cancels),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c22conc(t, n, cancels) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "cancel/blocked",
			Rule: "requests that end only when they are cancelled in the inner transport, all schedules with <= 2 preemptions of one or two of them and their cancellation",
			Opt:  mc.Options{Bound: 2},
			Body: c22blocked,
		})
		if tier == "quick" {
			add(false, 3, 1, 1)
			add(false, 2, 2, 1)
			add(true, 2, 1, 1)
			add(true, 1, 2, 1)
		} else {
			add(false, 6, 1, 2)
			add(false, 4, 2, 1)
			add(false, 2, 3, 1)
			add(true, 3, 1, 2)
			add(true, 2, 2, 1)
		}
		return
	})
}

// inner is a transport that does as it is told and notes what it gets.
type inner struct {
	act func(r *http.Request) (*http.Response, error)
}

func (i *inner) RoundTrip(r *http.Request) (*http.Response, error) { return i.act(r) }

// cancelInner can cancel as well.
type cancelInner struct {
	inner
	cancel func(r *http.Request)
}

func (i *cancelInner) CancelRequest(r *http.Request) { i.cancel(r) }

var errC22 = errors.New("no connection")

// c22request makes one of several kinds of requests.
func c22request(k int) *http.Request {
	r, err := http.NewRequest("GET", "http://example.com:80/x?y=z#f", nil)
	if err != nil {
		panic(err)
	}
	switch k {
	case 1:
		r.Header = http.Header{"X-A": {"1", "2"}, "x-lower": {"3"}, "Empty": {}, "Authorization": {"secret"}}
	case 2:
		r.Header = nil
	case 3:
		r.Header.Set(httptrace.HeaderSpanID, "0000000000000063/0000000000000063")
	case 4:
		r, _ = http.NewRequest("POST", "https://user:pw@host/", strings.NewReader("body"))
	case 5:
		r.Trailer = http.Header{"T": {"1"}}
		r.TransferEncoding = []string{"chunked"}
		r.Close = true
		r.ContentLength = -1
		r.Host = "other.example.com"
	case 6:
		r.Header.Add(httptrace.HeaderSpanID, "garbage")
		r.Header.Add(httptrace.HeaderSpanID, "0000000000000063/0000000000000063")
		r.Header.Set(httptrace.HeaderParentSpanID, "0000000000000064/0000000000000063")
	case 7:
		*r = *r.WithContext(context.WithValue(context.Background(), ctxSpan, "v"))
		r.Method = "" // means GET
	case 8:
		// values with spare capacity
		v := make([]string, 1, 4)
		v[0] = "1"
		r.Header["X-A"] = v
		r.Trailer = http.Header{"X-A": {"2"}}
	}
	return r
}

const c22requests = 9

// c22snapshot describes all of a request but the headers to come.
func c22snapshot(r *http.Request) string {
	return fmt.Sprintf("%s %v %p %s %d %d %v %p %v %v %q %v %q %v %p", r.Method, r.URL, r.URL, r.Proto, r.ProtoMajor, r.ProtoMinor, r.Body == nil, r.Body,
		r.ContentLength, r.TransferEncoding, r.Host, r.Close, headerString(r.Trailer), r.RemoteAddr, r.Context())
}

func spare(h http.Header) string {
	s := ""
	for _, k := range []string{"X-A", "x-lower"} {
		if v, ok := h[k]; ok {
			s += fmt.Sprintf("%q", v[:cap(v)])
		}
	}
	return s
}

// c22inner checks a request that reached the inner transport and returns the span it carries.
func c22inner(t *mc.T, r, orig *http.Request, wantHeader string, rec appdash.SpanID) appdash.SpanID {
	if a, b := c22snapshot(r), c22snapshot(orig); a != b {
		t.Fail("the inner transport gets request\n%s instead of\n%s", a, b)
	}
	if h := headerString(r.Header, httptrace.HeaderSpanID); h != wantHeader {
		t.Fail("the inner transport gets headers %s instead of %s", h, wantHeader)
	}
	vs := r.Header[http.CanonicalHeaderKey(httptrace.HeaderSpanID)]
	if len(vs) != 1 {
		t.Fail("the inner transport gets Span-ID %q", vs)
	}
	id, err := appdash.ParseSpanID(vs[0])
	must(t, err, "Span-ID")
	if id.Trace != rec.Trace || id.Parent != rec.Span || id.Span == rec.Span {
		t.Fail("the request carries span %v, the recorder's is %v", id, rec)
	}
	return *id
}

func c22seq(t *mc.T) {
	rec := appdash.NewRecorder(hx.ID(30, 31, 32), capture{fails: t.Choose(2, "the collector fails") == 1})
	in := &inner{}
	tr := &httptrace.Transport{Recorder: rec, Transport: in, SetName: t.Choose(2, "SetName") == 1}
	used := map[appdash.ID]bool{31: true}
	kind := t.Choose(c22requests, "request")
	for round := 0; round < 2; round++ {
		outcome := t.Choose(7, "outcome")
		if round == 1 {
			kind = (kind + outcome) % c22requests
		}
		orig := c22request(kind)
		isNil := orig.Header == nil
		was, wasAll, wasSpare, snap := headerString(orig.Header, httptrace.HeaderSpanID), headerString(orig.Header), spare(orig.Header), c22snapshot(orig)
		before := len(collected())
		var resp *http.Response
		var err error
		status := -1
		length := int64(0)
		var in0, in1 time.Time
		calls := 0
		var carried appdash.SpanID
		in.act = func(r *http.Request) (*http.Response, error) {
			calls++
			if r == orig {
				t.Fail("the caller's own request reaches the inner transport")
			}
			carried = c22inner(t, r, orig, was, rec.SpanID)
			in0 = mc.Now()
			mc.Sleep(7 * time.Millisecond)
			in1 = mc.Now()
			// What a transport may do to its own request.
			r.Header.Set("Connection", "close")
			switch outcome {
			case 0, 1, 2, 3:
				status = []int{200, 404, 500, 101}[outcome]
				length = []int64{123, -1, 0, 5}[outcome]
				resp = &http.Response{StatusCode: status, ContentLength: length, Header: http.Header{"X-R": {"1", "2"}}, Body: io.NopCloser(strings.NewReader("b"))}
				if outcome == 1 {
					resp.Trailer = http.Header{"X-R": {"3"}}
				}
			case 4:
				err = errC22
			case 5:
				err = context.Canceled
			case 6: // an error with a response, as of a redirect refused
				err = errC22
				resp = &http.Response{StatusCode: 302}
			}
			return resp, err
		}
		mc.Sleep(3 * time.Millisecond)
		gr, ge := tr.RoundTrip(orig)
		mc.Sleep(5 * time.Millisecond)
		if calls != 1 {
			t.Fail("the inner transport was called %d times", calls)
		}
		if gr != resp || ge != err {
			t.Fail("the caller gets %v, %v instead of %v, %v", gr, ge, resp, err)
		}
		if resp != nil && resp.Header != nil {
			if h := headerString(resp.Header); h != `X-R=["1" "2"]` {
				t.Fail("the headers of the response are %s", h)
			}
		}
		if h := headerString(orig.Header); h != wasAll || (orig.Header == nil) != isNil || spare(orig.Header) != wasSpare {
			t.Fail("the headers of the caller's request are %s, were %s", h, wasAll)
		}
		if s := c22snapshot(orig); s != snap {
			t.Fail("the caller's request is %s, was %s", s, snap)
		}
		l := collected()[before:]
		if len(l) != 1 {
			t.Fail("%d spans are collected for a request", len(l))
		}
		g := l[0]
		if g.id.Trace != 30 || g.id.Parent != 31 || used[g.id.Span] || used[carried.Span] {
			t.Fail("the event is recorded in span %v, the recorder's is %v, carried is %v, used before: %v", g.id, rec.SpanID, carried, used)
		}
		used[g.id.Span], used[carried.Span] = true, true
		e := g.clientEvent(t)
		if e.Response.StatusCode != status || status > 0 && e.Response.ContentLength != length {
			t.Fail("status %d, length %d are recorded instead of %d, %d", e.Response.StatusCode, e.Response.ContentLength, status, length)
		}
		if !e.ClientSend.Equal(in0) || !e.ClientRecv.Equal(in1) {
			t.Fail("times %v-%v are recorded, the exchange took %v-%v", e.ClientSend, e.ClientRecv, in0, in1)
		}
		if e.Request.Method != orig.Method || e.Request.URI != orig.URL.RequestURI() || e.Request.Host != orig.Host || e.Request.ContentLength != orig.ContentLength {
			t.Fail("the event says request %+v", e.Request)
		}
		name := ""
		if tr.SetName {
			name = "Request " + orig.URL.Host
		}
		if g.name() != name {
			t.Fail("the span is named %q instead of %q", g.name(), name)
		}
		mc.State(fmt.Sprint(kind, outcome, g.name()))
	}
}

// flight is a request in flight in c22conc.
type flight struct {
	orig, in    *http.Request
	enter, exit int // stamps of the inner exchange
	call, ret   int
	outcome     int
	resp        *http.Response
	gotResp     *http.Response
	gotErr      error
	carried     appdash.SpanID
}

// cancelNote is a cancellation that reached the inner transport.
type cancelNote struct {
	r     *http.Request
	stamp int
}

func c22conc(t *mc.T, n, cancels int) {
	rec := appdash.NewRecorder(hx.ID(30, 31, 32), capture{points: true})
	fs := make([]*flight, n)
	byPath := map[string]*flight{}
	in := &cancelInner{}
	var tr *httptrace.Transport
	in.act = func(r *http.Request) (*http.Response, error) {
		f := byPath[r.URL.Path]
		f.in = r
		f.enter = mc.Stamp()
		id, err := appdash.ParseSpanID(r.Header.Get(httptrace.HeaderSpanID))
		if err != nil {
			mc.Fail("the request carries span %q", r.Header.Get(httptrace.HeaderSpanID))
		}
		f.carried = *id
		mc.Point("exchange")
		f.exit = mc.Stamp()
		if f.outcome == 1 {
			return nil, errC22
		}
		return f.resp, nil
	}
	in.cancel = func(r *http.Request) { mc.Rec(&cancelNote{r, mc.Stamp()}) }
	canCancel := t.Choose(2, "inner transport can cancel") == 1
	tr = &httptrace.Transport{Recorder: rec, Transport: in}
	if !canCancel {
		tr.Transport = &in.inner
	}
	for i := range fs {
		f := &flight{outcome: t.Choose(2, "outcome"), resp: &http.Response{StatusCode: 200 + i}}
		f.orig, _ = http.NewRequest("GET", fmt.Sprintf("http://example.com/%d", i), nil)
		byPath[f.orig.URL.Path] = f
		fs[i] = f
	}
	other, _ := http.NewRequest("GET", "http://example.com/other", nil)
	var ts []*mc.T
	for i := range fs {
		f := fs[i]
		ts = append(ts, t.Go(fmt.Sprint("request", i), func() {
			f.call = mc.Stamp()
			f.gotResp, f.gotErr = tr.RoundTrip(f.orig)
			f.ret = mc.Stamp()
		}))
	}
	type cancel struct {
		of        int
		call, ret int
		late      []*http.Request
	}
	cs := make([]*cancel, cancels)
	for i := range cs {
		c := &cancel{of: t.Choose(n+1, "cancel")}
		cs[i] = c
		ts = append(ts, t.Go(fmt.Sprint("canceller", i), func() {
			r := other
			if c.of < n {
				r = fs[c.of].orig
			}
			c.call = mc.Stamp()
			tr.CancelRequest(r)
			c.ret = mc.Stamp()
		}))
	}
	t.Join(ts...)
	var notes []*cancelNote
	for _, r := range mc.Records() {
		if c, ok := r.(*cancelNote); ok {
			notes = append(notes, c)
		}
	}
	used := map[appdash.ID]bool{31: true}
	l := collected()
	if len(l) != n {
		t.Fail("%d spans are collected for %d requests", len(l), n)
	}
	for _, f := range fs {
		if f.outcome == 1 {
			if f.gotResp != nil || f.gotErr != errC22 {
				t.Fail("%v gets %v, %v", f.orig.URL, f.gotResp, f.gotErr)
			}
		} else if f.gotResp != f.resp || f.gotErr != nil {
			t.Fail("%v gets %v, %v", f.orig.URL, f.gotResp, f.gotErr)
		}
		m := 0
		for _, g := range l {
			e := g.clientEvent(t)
			if e.Request.URI != f.orig.URL.Path {
				continue
			}
			m++
			st := f.resp.StatusCode
			if f.outcome == 1 {
				st = -1
			}
			if e.Response.StatusCode != st {
				t.Fail("status %d is recorded for %v", e.Response.StatusCode, f.orig.URL)
			}
			if g.id.Trace != 30 || g.id.Parent != 31 || used[g.id.Span] {
				t.Fail("the event is recorded in span %v", g.id)
			}
			used[g.id.Span] = true
		}
		if m != 1 {
			t.Fail("%d events are recorded for %v", m, f.orig.URL)
		}
		if f.carried.Trace != 30 || f.carried.Parent != 31 || used[f.carried.Span] {
			t.Fail("%v carries span %v", f.orig.URL, f.carried)
		}
		used[f.carried.Span] = true
	}
	// Cancellations: each one in the inner transport belongs to one of the outside, and no other.
	seen := 0
	for i, c := range cs {
		mine := 0
		for _, x := range notes {
			if x.stamp > c.call && x.stamp < c.ret && c.of < n && x.r == fs[c.of].in {
				mine++
			}
		}
		if c.of == n {
			continue
		}
		f := fs[c.of]
		if canCancel && mine == 0 && c.call > f.enter && f.enter > 0 && c.ret < f.exit {
			t.Fail("cancellation %d of %v, which was in flight, does not reach the inner transport", i, f.orig.URL)
		}
		if mine > 0 && c.call > f.ret {
			t.Fail("%v was cancelled in the inner transport although it was over", f.orig.URL)
		}
		seen += mine
	}
	if len(notes) > seen {
		t.Fail("%d cancellations reach the inner transport, %d were asked for", len(notes), seen)
	}
	mc.State(fmt.Sprint(len(notes), used))
}

// c22blocked: requests that end only by being cancelled.
func c22blocked(t *mc.T) {
	n := 1 + t.Choose(2, "requests")
	rec := appdash.NewRecorder(hx.ID(30, 31, 32), capture{})
	in := &cancelInner{}
	tr := &httptrace.Transport{Recorder: rec, Transport: in}
	in.act = func(r *http.Request) (*http.Response, error) {
		mc.SetExt("started " + r.URL.Path)
		mc.WaitExt("cancelled " + r.URL.Path)
		return nil, context.Canceled
	}
	in.cancel = func(r *http.Request) { mc.SetExt("cancelled " + r.URL.Path) }
	var ts []*mc.T
	for i := 0; i < n; i++ {
		r, _ := http.NewRequest("GET", fmt.Sprintf("http://example.com/%d", i), nil)
		ts = append(ts, t.Go("request", func() {
			if _, err := tr.RoundTrip(r); err != context.Canceled {
				mc.Fail("a cancelled request gives %v", err)
			}
		}), t.Go("canceller", func() {
			mc.WaitExt("started " + r.URL.Path)
			tr.CancelRequest(r)
		}))
	}
	t.Join(ts...) // a deadlock if a cancellation gets lost
	for _, g := range collected() {
		if e := g.clientEvent(t); e.Response.StatusCode != -1 {
			t.Fail("status %d is recorded for a cancelled request", e.Response.StatusCode)
		}
	}
	mc.State(fmt.Sprint(n))
}
