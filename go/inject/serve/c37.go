package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verif/hx"
	"verif/kit"
	"verif/mc"
	vrand "verif/shim/mrand"
	vnet "verif/shim/net"
	vtls "verif/shim/tls"
)

// c37units: the send command.
func c37units() {
	kit.Prop("C37", func(tier string) (us []*kit.Unit) {
		parts := 8
		if tier != "quick" {
			parts = 32
		}
		for _, tls := range []bool{false, true}[:pick(tier, 1, 2)] {
			for k := 0; k < parts; k++ {
				tls := tls
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("faults/tls=%v/%d", tls, k),
					Rule: fmt.Sprintf("appdash send with one failing dial or write, at any packet (write k of every %d) and cut after any number of bytes (quick: none, the first, half, all but one, all), the connection broken or (thorough) still usable: it reports an error, or the server has collected 60 complete traces", parts),
					Opt:  mc.Options{Bound: 1, NetFault: true, NetTransient: tier != "quick", FewCuts: tier == "quick", FaultPart: [2]int{k, parts}, NoPreempt: true, Horizon: 1000000},
					Body: func(t *mc.T) { c37send(t, tls) },
				})
			}
		}
		us = append(us, &kit.Unit{
			Name: "data",
			Rule: "the sample data for all combinations of numbers at and between the limits drawn for the first trace (lengths, number of spans, splits), and any others",
			Opt:  mc.Options{NoPreempt: true, Horizon: 1000000},
			Body: c37data,
		}, &kit.Unit{
			Name: "outages",
			Rule: "the server is gone from the n-th packet on, for every n: the sample data is complete or an error is returned",
			Opt:  mc.Options{NoPreempt: true, Horizon: 1000000},
			Body: c37outage,
		}, &kit.Unit{
			Name: "settings",
			Rule: "all combinations of 8 protocols, with a TCP server, a TLS server, none at the address, or one elsewhere, debugging or not: the data is delivered if they fit, and an error is returned otherwise",
			Opt:  mc.Options{NoPreempt: true, Horizon: 1000000},
			Body: c37settings,
		})
		return
	})
	kit.Prop("C38", func(tier string) (us []*kit.Unit) {
		us = append(us, &kit.Unit{
			Name: "sequences",
			Rule: fmt.Sprintf("all sequences of %d requests to 7 paths of the demo application, with 3 sets of flags: every page links to the page of its trace, which shows the request and the calls it makes, with their times", pick(tier, 3, 4)),
			Opt:  mc.Options{NoPreempt: true, Horizon: 1000000},
			Body: func(t *mc.T) { c38seq(t, pick(tier, 3, 4)) },
		})
		for i, pair := range c38pairs {
			for _, race := range []bool{false, true} {
				pair, name, b := pair, "concurrent", pick(tier, 2, 3)
				if race {
					name, b = "race", 2
				}
				if i == 4 && (race || tier == "quick") {
					b-- // most operations
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("%s/%d", name, i), Race: race,
					Rule: fmt.Sprintf("all schedules with <= %d delays of requests for %s and %s to the demo application at the same time: each has its own trace", b, pair[0], pair[1]),
					Opt:  mc.Options{Bound: b, Delay: true, Horizon: 1000000},
					Body: func(t *mc.T) { c38conc(t, pair) },
				})
			}
		}
		return
	})
}

const c37addr = "localhost:7701"

// got is what a collector server has collected.
type got struct {
	m    *hx.StoreM
	seen map[string]bool
	n    int
}

func (g *got) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	g.n++
	// A packet may arrive twice, when its write was reported as failed.
	if k := fmt.Sprint(id, hx.Anns(as)); !g.seen[k] {
		g.seen[k] = true
		g.m.Collect(id, as...)
	}
	return nil
}

func newGot() *got { return &got{m: hx.NewM(), seen: map[string]bool{}} }

func collectorServer(t *mc.T, c appdash.Collector, addr string, tls bool) {
	var l vnet.Listener
	var err error
	if tls {
		l, err = vtls.Listen("tcp", addr, &vtls.Config{Certificates: make([]vtls.Certificate, 1)})
	} else {
		l, err = vnet.Listen("tcp", addr)
	}
	if err != nil {
		t.Fail("listen: %v", err)
	}
	t.Go("server", appdash.NewServer(l, c).Start)
}

// complete tells what is wrong with sample data; "" if nothing.
func complete(m *hx.StoreM, traces int) string {
	if len(m.T) != traces {
		return fmt.Sprintf("there are %d traces", len(m.T))
	}
	for id, spans := range m.T {
		ms := appdash.NewMemoryStore()
		n := 0
		for _, s := range spans.Spans {
			ms.Collect(s.ID, s.Anns...)
			n++
		}
		tr, err := ms.Trace(id)
		if err != nil {
			return err.Error()
		}
		if !tr.Span.ID.IsRoot() {
			return fmt.Sprintf("trace %v has no root", id)
		}
		var from, to, at time.Time
		depth := 0
		for s := tr; ; s = s.Sub[0] {
			if s.Span.Name() == "" {
				return fmt.Sprintf("span %v has no name", s.Span.ID)
			}
			var evs []appdash.Event
			if err := appdash.UnmarshalEvents(s.Span.Annotations, &evs); err != nil {
				return fmt.Sprintf("the events of span %v: %v", s.Span.ID, err)
			}
			k := 0
			for _, e := range evs {
				q, ok := e.(sqltrace.SQLEvent)
				if !ok {
					continue
				}
				k++
				switch {
				case q.SQL == "" || q.Tag == "":
					return fmt.Sprintf("span %v: empty event %v", s.Span.ID, q)
				case q.Start().IsZero() || q.End().Before(q.Start()):
					return fmt.Sprintf("span %v ends before it starts: %v", s.Span.ID, q)
				case depth == 0:
					from, to, at = q.Start(), q.End(), q.Start()
				case !q.Start().Equal(at):
					return fmt.Sprintf("trace %v: span %d starts at %v, the one before ends at %v", id, depth, q.Start(), at)
				default:
					at = q.End()
				}
			}
			if k != 1 {
				return fmt.Sprintf("span %v has %d events of its query", s.Span.ID, k)
			}
			if len(s.Sub) == 0 {
				break
			}
			depth++
			if len(s.Sub) > 1 || s.Sub[0].Span.ID.Parent != s.Span.ID.Span {
				return fmt.Sprintf("trace %v is not a chain: %s", id, hx.Shape(tr))
			}
		}
		if depth < 3 || depth > 6 || n != depth+1 {
			return fmt.Sprintf("trace %v has %d spans: %s", id, n, hx.Shape(tr))
		}
		if !at.Equal(to) {
			return fmt.Sprintf("trace %v lasts from %v to %v, its spans end at %v", id, from, to, at)
		}
	}
	return ""
}

func send(args ...string) error {
	CLI.Options = 0
	sendCmd = SendCmd{}
	_, err := CLI.ParseArgs(append([]string{"send"}, args...))
	return err
}

func c37send(t *mc.T, tls bool) {
	g := newGot()
	collectorServer(t, g, c37addr, tls)
	vrand.SetHook(func(n int64) int64 { return n / 7 })
	args := []string{"-c", c37addr}
	if tls {
		args = append(args, "-p", "tls", "-s", "localhost")
	}
	err := send(args...)
	mc.AfterIdle()
	msg := complete(g.m, 60)
	switch {
	case err == nil && msg != "":
		t.Fail("appdash send ends without an error, and %s", msg)
	case err != nil && mc.NetFaults() == 0:
		t.Fail("appdash send: %v, nothing has failed", err)
	}
	mc.State(fmt.Sprint(g.n, err != nil))
}

func c37data(t *mc.T) {
	k := 0
	vrand.SetHook(func(n int64) int64 {
		k++
		if k > 11 {
			return int64(k*k) % n
		}
		l := []int64{0, n - 1}
		switch {
		case n == 1000:
			l = []int64{0, 1, 7, 999}
		case n <= 4:
			l = []int64{0, 1, 2, 3}[:n]
		case k > 5 && n > 20:
			l = []int64{0, n / 2, n - 1}
		}
		if len(l) == 1 || l[0] == l[len(l)-1] {
			return l[0]
		}
		return l[mc.Choose(len(l), "random number")]
	})
	g := newGot()
	func() {
		// (The other traces are made in the same way.)
		defer func() {
			if r := recover(); r != nil && r != any(errEnough) {
				panic(r)
			}
		}()
		if err := sampleData(firstTrace{g}); err != nil {
			t.Fail("sampleData: %v", err)
		}
	}()
	if msg := complete(g.m, 1); msg != "" {
		t.Fail("%s", msg)
	}
	mc.State(fmt.Sprint(g.n))
}

// firstTrace ends sampleData at the first span of the second trace.
type firstTrace struct{ g *got }

var errEnough = fmt.Errorf("enough")

func (f firstTrace) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if len(f.g.m.T) == 1 && f.g.m.T[id.Trace] == nil {
		panic(errEnough)
	}
	return f.g.Collect(id, as...)
}

// outage fails from some call on.
type outage struct {
	g     *got
	after int
	for_  int
	n     int
	fails int
}

var errOutage = fmt.Errorf("the server is gone")

func (o *outage) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	o.n++
	if o.n > o.after && o.n <= o.after+o.for_ {
		o.fails++
		return errOutage
	}
	return o.g.Collect(id, as...)
}

func c37outage(t *mc.T) {
	o := &outage{g: newGot()}
	// (The number of packets depends on the random numbers: at most 60 traces of 7 spans.)
	o.after = 200*t.Choose(3, "hundreds") + t.Choose(200, "packet")
	o.for_ = []int{1, 2, 1 << 30}[t.Choose(3, "length")]
	err := sampleData(o)
	msg := complete(o.g.m, 60)
	if err == nil && msg != "" {
		t.Fail("%d packets from number %d on fail, sampleData returns no error, and %s", o.for_, o.after, msg)
	}
	if err != nil && o.fails == 0 {
		t.Fail("sampleData: %v, nothing has failed", err)
	}
	mc.State(fmt.Sprint(o.g.n, err != nil))
}

func c37settings(t *mc.T) {
	protos := []string{"tcp", "tls", "", "udp", "TCP", "tcp4", "unix", "-"}
	proto := protos[t.Choose(len(protos), "protocol")]
	server := t.Choose(4, "server")
	g := newGot()
	addr := "localhost:7701"
	switch server {
	case 0, 1:
		collectorServer(t, g, addr, server == 1)
	case 3:
		collectorServer(t, g, "localhost:7702", false)
	}
	var args []string
	if proto != "-" {
		args = append(args, "-p", proto)
	} else {
		proto = "tcp" // the default
	}
	fits := proto == "tcp" && server == 0 || proto == "tls" && server == 1
	switch t.Choose(3, "address") {
	case 1:
		args = append(args, "--collector", addr)
	case 2:
		args = append(args, "-c", "localhost:7702")
		fits = proto == "tcp" && server == 3
	}
	if proto == "tls" && t.Choose(2, "server name") == 1 {
		args = append(args, "--server-name=localhost")
	}
	if t.Choose(2, "debug") == 1 {
		args = append(args, "--debug")
	}
	err := send(args...)
	mc.AfterIdle()
	msg := complete(g.m, 60)
	if err == nil && msg != "" {
		t.Fail("appdash send %v ends without an error, and %s", args, msg)
	}
	if err != nil && (fits || len(g.m.T) > 0) {
		t.Fail("appdash send %v: %v, %d traces have arrived", args, err, len(g.m.T))
	}
	if proto != "tcp" && proto != "tls" && mc.NetDials() > 0 {
		t.Fail("appdash send %v connects", args)
	}
	mc.State(fmt.Sprint(args, err != nil))
}

// ---- C38 ----

// demoWorld is a running demo.
type demoWorld struct {
	t        *mc.T
	app, web http.Handler
	webURL   string
}

var reTrace = regexp.MustCompile(`<a href="([^"]*)">View request trace on appdash</a>`)

// loop answers requests with the handlers that serve the addresses.
type loop struct{}

func (loop) RoundTrip(r *http.Request) (*http.Response, error) {
	h, ok := mc.HTTPHandlerAt(r.URL.Host).(http.Handler)
	if !ok {
		return nil, fmt.Errorf("nobody serves %s", r.URL.Host)
	}
	q := &http.Request{Method: r.Method, URL: &url.URL{Path: r.URL.Path, RawQuery: r.URL.RawQuery}, Header: r.Header.Clone(), Host: r.URL.Host, RequestURI: r.URL.RequestURI(),
		RemoteAddr: "192.0.2.2:1234", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: http.NoBody}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, q)
	res := w.Result()
	res.Body = io.NopCloser(bytes.NewReader(w.Body.Bytes()))
	res.Request = r
	return res, nil
}

func demo(t *mc.T, variant int) *demoWorld {
	d := &demoWorld{t: t, webURL: "http://localhost:8700"}
	appAddr := ":8699"
	args := []string{"demo"}
	switch variant {
	case 1:
		args = append(args, "--appdash-http=:9000", "--demo-http=:9001")
		appAddr, d.webURL = ":9001", "http://localhost:9000"
	case 2:
		args = append(args, "--debug", "--trace")
	case 3:
		args = append(args, "--appdash-http=127.0.0.1:9000", "--demo-http=[::1]:9001")
		appAddr, d.webURL = "[::1]:9001", "http://127.0.0.1:9000"
	}
	http.DefaultTransport = loop{}
	traceapp.ReloadTemplates = false
	mc.Calm()
	demoCmd = DemoCmd{}
	t.Go("program", func() {
		CLI.Options = 0
		_, err := CLI.ParseArgs(args)
		mc.Fail("appdash %s ends: %v", strings.Join(args, " "), err)
	})
	mc.AfterIdle()
	d.app, _ = mc.HTTPHandlerAt(appAddr).(http.Handler)
	d.web, _ = mc.HTTPHandlerAt(strings.TrimPrefix(d.webURL, "http://")).(http.Handler)
	if d.app == nil || d.web == nil {
		t.Fail("appdash %s does not serve: application %v, web UI %v", strings.Join(args, " "), d.app != nil, d.web != nil)
	}
	return d
}

var c38paths = []string{"/", "/api-calls", "/endpoint-A", "/endpoint-B", "/endpoint-C", "/other", "/api-calls?x=1"}

var c38sleep = map[string]time.Duration{"/endpoint-A": 250 * time.Millisecond, "/endpoint-B": 75 * time.Millisecond, "/endpoint-C": 300 * time.Millisecond, "/api-calls": 625 * time.Millisecond}

// visit makes a request; it returns the trace that the answer names.
func (d *demoWorld) visit(path string) appdash.ID {
	from := mc.Elapsed()
	w := do(d.app, request{target: path})
	took := mc.Elapsed() - from
	p := strings.SplitN(path, "?", 2)[0]
	if w.Code != 200 {
		mc.Fail("%s is answered %d", path, w.Code)
	}
	if !mc.RaceEnabled && took < c38sleep[p] {
		mc.Fail("%s is answered after %v", path, took)
	}
	span, err := appdash.ParseSpanID(w.Header().Get("Span-Id"))
	if err != nil {
		mc.Fail("%s is answered with the span ID %q", path, w.Header().Get("Span-Id"))
	}
	l := reTrace.FindAllStringSubmatch(w.Body.String(), -1)
	if strings.HasPrefix(p, "/endpoint-") {
		if len(l) > 0 {
			mc.Fail("%s is answered %q", path, w.Body.String())
		}
		return span.Trace
	}
	if len(l) != 1 || l[0][1] != d.webURL+"/traces/"+span.Trace.String() {
		mc.Fail("%s links to %v, the trace is %v at %s", path, l, span.Trace, d.webURL)
	}
	return span.Trace
}

// verify looks at the page of the trace of a request.
func (d *demoWorld) verify(id appdash.ID, path string, page bool) {
	t := d.t
	tr, err := get(&program{h: d.web}, id) // (this is much faster than the page)
	if page {
		tr, err = shown(d.web, id)
	}
	if err != nil {
		t.Fail("the trace of %s: %v", path, err)
	}
	p := strings.SplitN(path, "?", 2)[0]
	root := d.span(tr, path, c38sleep[p])
	if tr.Span.ID.Trace != id || !tr.Span.ID.IsRoot() {
		t.Fail("the trace of %s has the root %v", path, tr.Span.ID)
	}
	var want []string
	if p == "/api-calls" {
		want = []string{"/endpoint-A", "/endpoint-B", "/endpoint-C"}
	}
	if len(tr.Sub) != 2*len(want) {
		t.Fail("the trace of %s has the spans %s", path, hx.Shape(tr))
	}
	// Both sides of a call have a span below that of the request.
	var client []httptrace.ClientEvent
	server := map[string]httptrace.ServerEvent{}
	for _, s := range tr.Sub {
		if s.Span.ID.Parent != tr.Span.ID.Span || len(s.Sub) > 0 {
			t.Fail("the trace of %s has the spans %s", path, hx.Shape(tr))
		}
		var e httptrace.ClientEvent
		if err := appdash.UnmarshalEvent(s.Span.Annotations, &e); err == nil {
			client = append(client, e)
			continue
		}
		x := d.span(s, "", 0)
		server[x.Request.URI] = d.span(s, x.Request.URI, c38sleep[x.Request.URI])
	}
	sort.Slice(client, func(i, j int) bool { return client[i].ClientSend.Before(client[j].ClientSend) })
	for i, w := range want {
		c, e := client[i], server[w]
		if c.Request.URI != w || e.Request.URI != w {
			t.Fail("call %d of %s is recorded as %q by the client, and servers have recorded %v", i, path, c.Request.URI, server)
		}
		if c.Response.StatusCode != 200 || c.ClientSend.After(e.ServerRecv) || c.ClientRecv.Before(e.ServerSend) {
			t.Fail("the call of %s is recorded as %v by the client and %v by the server", w, c, e)
		}
		if c.ClientSend.Before(root.ServerRecv) || c.ClientRecv.After(root.ServerSend) {
			t.Fail("the call of %s is recorded as %v, the request that makes it as %v", w, c, root)
		}
	}
}

// span checks the server side of a request.
func (d *demoWorld) span(s *appdash.Trace, path string, took time.Duration) (e httptrace.ServerEvent) {
	t := d.t
	if err := appdash.UnmarshalEvent(s.Span.Annotations, &e); err != nil {
		t.Fail("the span of %s: %v", path, err)
	}
	if path == "" {
		return
	}
	p := strings.SplitN(path, "?", 2)[0]
	if e.Request.URI != path || e.Request.Method != "GET" || e.Response.StatusCode != 200 || e.Route != p {
		t.Fail("%s is recorded as %s %s, status %d, route %s", path, e.Request.Method, e.Request.URI, e.Response.StatusCode, e.Route)
	}
	if x := e.ServerSend.Sub(e.ServerRecv); x < took || x > took+2*time.Second {
		t.Fail("%s is recorded as taking %v, it took %v", path, x, took)
	}
	if n := s.Span.Name(); !strings.HasSuffix(n, p) {
		t.Fail("the span of %s has the name %q", path, n)
	}
	return
}

func c38seq(t *mc.T, n int) {
	d := demo(t, t.Choose(4, "flags"))
	ids := map[appdash.ID]string{}
	for i := 0; i < n; i++ {
		path := c38paths[t.Choose(len(c38paths), "path")]
		id := d.visit(path)
		mc.AfterIdle()
		if ids[id] != "" {
			t.Fail("two requests have the same trace")
		}
		ids[id] = path
		d.verify(id, path, true)
	}
	for id, path := range ids {
		d.verify(id, path, false)
	}
	if l := attrs(do(d.web, request{target: "/traces"}).Body.String(), reList); len(l) != n {
		t.Fail("after %d requests the list shows %d traces", n, len(l))
	}
}

var c38pairs = [][2]string{{"/", "/"}, {"/", "/api-calls"}, {"/endpoint-A", "/"}, {"/api-calls", "/endpoint-B"}, {"/api-calls", "/api-calls"}, {"/endpoint-B", "/endpoint-B"}, {"/other", "/api-calls"}, {"/endpoint-A", "/endpoint-C"}}

func c38conc(t *mc.T, p [2]string) {
	d := demo(t, 0)
	mc.Stir()
	var ids [2]appdash.ID
	var ts []*mc.T
	for i := range p {
		i := i
		ts = append(ts, t.Go(p[i], func() { ids[i] = d.visit(p[i]) }))
	}
	t.Join(ts...)
	mc.Calm()
	mc.AfterIdle()
	if ids[0] == ids[1] {
		t.Fail("two requests have the same trace")
	}
	for i := range p {
		d.verify(ids[i], p[i], false)
	}
}
