package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/gorilla/mux"
	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// awkward are annotations that pages may stumble over, besides contents.
var awkward = []func(t *mc.T) []appdash.Annotation{
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:HTTPServer", ""), hx.A("Server.Recv", "no time"), hx.A("Server.Send", "")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:HTTPClient", ""), hx.A("Client.Send", "2015-01-01T00:00:00Z"), hx.A("Client.Response.StatusCode", "many")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:Timespan", ""), hx.A("S", "9999999-99-99"), hx.A("E", "\xff")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:timespan", ""), hx.A("Span.Start", "x"), hx.A("Span.End", "y"), hx.A("Name", "timed")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:log", ""), hx.A("Time", "x"), hx.A("Msg", "<b>")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:SQL", "1"), hx.A("ClientSend", ""), hx.A("_schema:SQL", "2"), hx.A("SQL", "';drop table--")}
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, appdash.SpanName("")), event(t, appdash.Msg("m"))...)
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, appdash.SpanName("zero")), tspan(t, time.Time{}, time.Time{})...)
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, appdash.SpanName("half")), tspan(t, time.Time{}, at(0))...)
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, appdash.SpanName("backwards")), tspan(t, at(time.Hour), at(0))...)
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, appdash.SpanName("for ever")), tspan(t, time.Date(1, 1, 1, 0, 0, 1, 0, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 0, time.UTC))...)
	},
	func(t *mc.T) []appdash.Annotation {
		e := httptrace.NewServerEvent(&http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{"X": {"<"}}})
		e.ServerRecv, e.ServerSend = at(0), at(time.Second)
		return append(event(t, e), event(t, appdash.SpanName("served"))...)
	},
	func(t *mc.T) []appdash.Annotation {
		s := httptrace.NewServerEvent(&http.Request{Method: "GET", URL: &url.URL{Path: "/"}})
		s.ServerRecv, s.ServerSend = at(time.Second), at(2*time.Second)
		c := httptrace.NewClientEvent(&http.Request{Method: "GET", URL: &url.URL{Path: "/"}})
		c.ClientSend, c.ClientRecv = at(0), at(3*time.Second)
		return append(append(event(t, s), event(t, c)...), hx.A("Name", "both"))
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, sqltrace.SQLEvent{SQL: "select '</script>'", Tag: "{{", ClientSend: at(0), ClientRecv: at(time.Second)}), hx.A("Name", "sql"))
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{{Key: "nil"}, {Key: "_"}, {Key: "__proto__", Value: []byte("x")}, {Key: "Name"}}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("Name", "</title></textarea></script><script>alert(1)</script>"), hx.A("]]>", "-->")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("Name", "\xff\x00\u2028{{.}}"), hx.A("\xff", "x")}
	},
}

func init() {
	kit.Prop("C31", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Body: body})
		}
		add("pages", "every page about a trace, for every pair of 30 lists of annotations for the root and a child", func(t *mc.T) { c31pages(t) })
		add("reload", "every kind of page with templates that are loaded anew for each request", c31reload)
		add("shapes", fmt.Sprintf("all trees of up to %d spans, with missing parents and extreme identifiers: every page of every span", pick(tier, 4, 5)), func(t *mc.T) { c31shapes(t, pick(tier, 4, 5)) })
		add("errors", "malformed and unknown identifiers of every kind at every place of every URL, unknown paths, wrong methods", c31errors)
		add("store", "every call of the store or the queryer fails in every way, on every page", c31store)
		add("lists", fmt.Sprintf("all lists of up to %d requested identifiers over every subset of three stored traces", pick(tier, 3, 4)), func(t *mc.T) { c31lists(t, pick(tier, 3, 4)) })
		add("links", "every link, script, image and stylesheet on every page, for eight combinations of base URL and router", c31links)
		add("router", "11 boundary identifiers for trace and span, five kinds of router, every URL", c31router)
		add("sequences", fmt.Sprintf("all sequences of %d requests (pages, errors, imports, failing clients) and collections: every page is the one a fresh instance serves", pick(tier, 3, 4)), func(t *mc.T) { c31sequences(t, pick(tier, 3, 4)) })
		conc := func(k int, race bool, bound int) {
			us = append(us, &kit.Unit{Name: fmt.Sprintf("concurrent/%s/%d", c31kinds[k], bound), Race: race, Opt: mc.Options{Bound: bound},
				Body: func(t *mc.T) { c31conc(t, k, !race && tier == "thorough") },
				Rule: fmt.Sprintf("all schedules with <= %d preemptions: %s", bound, c31kinds[k])})
		}
		for k := range c31kinds {
			if tier == "quick" {
				conc(k, false, []int{3, 3, 1}[k])
				conc(k, true, 1)
			} else {
				conc(k, false, []int{4, 3, 3}[k])
				conc(k, true, 2)
			}
		}
		return
	})
}

// spanPage tells what is wrong with the page of a span.
func spanPage(page string, tr, span appdash.ID) string {
	if !strings.Contains(page, "<h1>Trace "+tr.String()) {
		return "it is not the page of the trace"
	}
	if !strings.Contains(page, `id="span-`+span.String()+`"`) {
		return "it is not the page of the span"
	}
	return ""
}

var (
	reVerbose = regexp.MustCompile(`(?s)<ul id="verboseDataView".*?</ul>`)
	reRow     = regexp.MustCompile(`(?s)<tr><th>(.*?)</th><td>(.*?)</td></tr>`)
)

// rows compares the annotations that the verbose view of a page has with the ones to show.
func rows(page string, as []appdash.Annotation) string {
	var want, got []string
	odd := map[int]bool{}
	for _, a := range as {
		if a.Key != "" && !strings.HasPrefix(a.Key, "_") {
			kv := a.Key + "=" + string(a.Value)
			if !utf8.ValidString(kv) || strings.ContainsAny(kv, "\x00\r") {
				odd[len(want)] = true
			}
			want = append(want, kv)
		}
	}
	v := reVerbose.FindString(page)
	if v == "" {
		return "the page has no verbose data view"
	}
	for _, m := range reRow.FindAllStringSubmatch(v, -1) {
		got = append(got, html.UnescapeString(m[1])+"="+html.UnescapeString(m[2]))
	}
	if len(got) != len(want) {
		return fmt.Sprintf("the page shows %d annotations instead of %d: %.500q", len(got), len(want), got)
	}
	for i := range want {
		if got[i] != want[i] && !odd[i] {
			return fmt.Sprintf("the page shows the annotation %.300q instead of %.300q", got[i], want[i])
		}
	}
	return ""
}

// all asks for every page about a trace and its spans.
func (in *inst) all(tr appdash.ID) {
	t := in.t
	get := func(f func() (*url.URL, error)) string {
		u, err := f()
		if err != nil {
			t.Fail("URL: %v", err)
		}
		return u.String()
	}
	top, err := in.store.Trace(tr)
	if err != nil {
		t.Fail("%v", err)
	}
	js := func(u string, n int) {
		w := in.get(u)
		var l []map[string]interface{}
		if err := json.Unmarshal(w.Body.Bytes(), &l); w.Code != 200 || err != nil || len(l) != n || length(w) != "" {
			t.Fail("GET %s: status %d, %v, %d rows instead of %d: %.300q %s", u, w.Code, err, len(l), n, w.Body, length(w))
		}
	}
	count := func(x *appdash.Trace) int {
		l, _ := hx.Flatten(x)
		return len(l)
	}
	u := get(func() (*url.URL, error) { return in.app.URLToTrace(tr) })
	page := in.page(u)
	if msg := spanPage(page, tr, top.ID.Span); msg != "" {
		t.Fail("GET %s: %s", u, msg)
	}
	if msg := rows(page, top.Annotations); msg != "" {
		t.Fail("GET %s: %s", u, msg)
	}
	js(get(func() (*url.URL, error) { return in.app.URLToTraceProfile(tr) }), count(top))
	for _, s := range in.m.T[tr].Spans {
		sub := top.FindSpan(s.ID.Span)
		if sub == nil {
			t.Fail("span %v is not found in %s", s.ID, hx.Tree(top))
		}
		u := get(func() (*url.URL, error) { return in.app.URLToTraceSpan(tr, s.ID.Span) })
		page := in.page(u)
		if msg := spanPage(page, tr, s.ID.Span); msg != "" {
			t.Fail("GET %s: %s", u, msg)
		}
		if msg := rows(page, s.Anns); msg != "" {
			t.Fail("GET %s: %s", u, msg)
		}
		js(get(func() (*url.URL, error) { return in.app.URLToTraceSpanProfile(tr, s.ID.Span) }), count(sub))
	}
	if got := listed(t, in, "/traces"); strings.Join(got, " ") != tr.String() {
		t.Fail("the list of traces shows %v", got)
	}
	if got := listed(t, in, "/traces?show="+tr.String()); strings.Join(got, " ") != tr.String() {
		t.Fail("the list of trace %v shows %v", tr, got)
	}
	for _, m := range []string{"", "?view-mode=span", "?view-mode=trace-and-span", "?view-mode=trace&selection=" + tr.String()} {
		in.page("/aggregate" + m)
	}
	in.check("after all pages")
}

func c31pages(t *mc.T) {
	l := append(append([]func(*mc.T) []appdash.Annotation(nil), contents...), awkward...)
	a, b := t.Choose(len(l), "root"), t.Choose(len(l), "child")
	in := newInst(t)
	in.collect(hx.ID(7, 1, 0), l[a](t)...)
	in.collect(hx.ID(7, 2, 1), l[b](t)...)
	in.all(7)
	mc.State(fmt.Sprint(a, b))
}

func c31reload(t *mc.T) {
	in := newInst(t)
	traceapp.ReloadTemplates = true
	agg := t.Choose(2, "aggregator") == 1
	if agg {
		in.app.Aggregator = noAgg{}
	}
	in.collect(hx.ID(7, 1, 0), awkward[11](t)...)
	in.collect(hx.ID(7, 2, 1), contents[4](t)...)
	in.collect(hx.ID(9, 1, 0), contents[4](t)...)
	switch t.Choose(3, "pages") {
	case 0:
		in.page("/")
		in.page("/traces")
		in.page("/traces/7")
	case 1:
		in.page("/traces/7/2")
		in.page("/aggregate")
		in.page("/")
	case 2:
		for i := 0; i < 2; i++ {
			w := in.get("/dashboard")
			if msg := complete(w); agg && msg != "" {
				t.Fail("dashboard: %s", msg)
			}
			if msg := refused(w); !agg && msg != "" {
				t.Fail("dashboard without an aggregator: %s", msg)
			}
			w = in.get("/dashboard/data")
			var l []struct{ URL string }
			if err := json.Unmarshal(w.Body.Bytes(), &l); agg && (w.Code != 200 || err != nil || len(l) != 3) {
				t.Fail("dashboard data: %d %v %.200q", w.Code, err, w.Body)
			}
			for i, r := range l {
				want := []string{"0000000000000007", "0000000000000009", "0000000000000007 0000000000000009"}[i]
				if got := strings.Join(listed(t, in, r.URL), " "); got != want {
					t.Fail("the link %s of a row of the dashboard leads to the traces %s instead of %s", r.URL, got, want)
				}
			}
			if msg := refused(w); !agg && msg != "" {
				t.Fail("dashboard data without an aggregator: %s", msg)
			}
		}
	}
	mc.State(fmt.Sprint(agg))
}

type noAgg struct{}

func (noAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	return []*appdash.AggregatedResult{{RootSpanName: "r", Average: time.Second, Samples: 1, Slowest: []appdash.ID{7}},
		{RootSpanName: "s", Average: time.Second, Samples: 2, Slowest: []appdash.ID{9}},
		{RootSpanName: "t", Average: time.Second, Samples: 2, Slowest: []appdash.ID{9, 7}}}, nil
}

func c31shapes(t *mc.T, max int) {
	in := newInst(t)
	n := t.Choose(max, "spans") + 1
	ss := shapes(n)
	par := ss[t.Choose(len(ss), "shape")]
	ext := t.Choose(4, "identifiers")
	trace := uint64(7)
	num := func(i int) uint64 { return uint64(i + 1) }
	switch ext {
	case 1:
		trace = 1<<64 - 1
		num = func(i int) uint64 { return 1<<64 - 1 - uint64(i) }
	case 2:
		trace = 0xabcdef
		num = func(i int) uint64 { return 0xa << (4 * uint(i)) }
	}
	back := t.Choose(2, "order") == 1
	for i := range par {
		k := i
		if back {
			k = n - 1 - i
		}
		id := hx.ID(trace, num(k), 0)
		if par[k] >= 0 {
			id.Parent = appdash.ID(num(par[k]))
		}
		if ext == 3 && k == 0 {
			id.Parent = 0x999 // not collected: there is no root
		}
		in.collect(id, hx.A("Name", fmt.Sprint("span", k)))
	}
	in.all(appdash.ID(trace))
	mc.State(fmt.Sprint(par, ext, back))
}

func c31errors(t *mc.T) {
	in := newInst(t)
	in.collect(hx.ID(0x7a, 1, 0), hx.A("Name", "root"))
	in.collect(hx.ID(0x7a, 2, 1), hx.A("Name", "child"))
	in.collect(hx.ID(0x8, 9, 0), hx.A("Name", "other"))
	bad := []string{"x", "0x7a", "-7a", "+7a", "%207a", "7a%20", "7a.", "7_a", "g", "1000000000000007a", "00000000000000000007g", "ffffffffffffffffffffffff", "7a%00",
		"%C3%A9", "7a,8", "profile", "%ff", "null", "{Trace}", "7a;8", "7a%3f", strings.Repeat("1", 3000),
		"7b", "3", "0", "ffffffffffffffff"} // well-formed, but unknown
	unknown := len(bad) - 4
	ok := []string{"7a", "7A", "000000000000007a", "00000000000000000000000000007a"}
	k := t.Choose(9, "kind")
	kinds := func(k int, id string) []string {
		return [][]string{
			{"/traces/" + id},
			{"/traces/" + id + "/profile"},
			{"/traces/7a/" + id, "/traces/" + id + "/1"},
			{"/traces/7a/" + id + "/profile", "/traces/" + id + "/1/profile"},
		}[k]
	}
	switch {
	case k < 4: // identifiers in paths
		i := t.Choose(len(bad), "identifier")
		for _, u := range kinds(k, bad[i]) {
			if u == "/traces/7a/profile" {
				continue
			}
			if msg := refused(in.get(u)); msg != "" {
				t.Fail("GET %.200s: %s", u, msg)
			}
		}
		mc.State(fmt.Sprint(k, i))
	case k == 4: // other ways of writing an identifier
		id := ok[t.Choose(len(ok), "identifier")]
		if msg := spanPage(in.page("/traces/"+id), 0x7a, 1); msg != "" {
			t.Fail("/traces/%s: %s", id, msg)
		}
		if got := listed(t, in, "/traces?show="+id); strings.Join(got, " ") != "000000000000007a" {
			t.Fail("show=%s lists %v", id, got)
		}
		for _, sp := range []string{"2", "02", "0000000000000002"} {
			if msg := spanPage(in.page("/traces/"+id+"/"+sp), 0x7a, 2); msg != "" {
				t.Fail("/traces/%s/%s: %s", id, sp, msg)
			}
		}
		mc.State(id)
	case k == 5: // malformed identifiers to list or to select
		i := t.Choose(unknown, "identifier")
		if strings.Contains(bad[i], ",") || strings.Contains(bad[i], ";") {
			return
		}
		for _, l := range []struct {
			show string
			want string
		}{{bad[i], ""}, {bad[i] + "," + bad[i], ""}, {"7a," + bad[i], "000000000000007a"}, {bad[i] + ",8", "0000000000000008"}} {
			w := in.get("/traces?show=" + l.show)
			if w.Code >= 400 && refused(w) == "" {
				continue
			}
			if got := strings.Join(attrs(w.Body.String(), traceLink), " "); got != l.want || complete(w) != "" || l.want == "" {
				t.Fail("show=%s lists %q: %s", l.show, got, complete(w))
			}
			if msg := refused(in.get("/aggregate?selection=" + l.show)); msg != "" {
				t.Fail("selection=%s: %s", l.show, msg)
			}
		}
		mc.State(fmt.Sprint(k, i))
	case k == 6: // paths and methods
		paths := []string{"/", "/traces", "/traces/7a", "/traces/7a/2", "/traces/7a/profile", "/traces/7a/2/profile", "/aggregate", "/dashboard", "/dashboard/data"}
		meth := []string{"POST", "PUT", "DELETE", "PATCH", "get", "OPTIONS"}
		p, m := paths[t.Choose(len(paths), "path")], meth[t.Choose(len(meth), "method")]
		if msg := refused(do(in.app, m, p, "[]")); msg != "" {
			t.Fail("%s %s: %s", m, p, msg)
		}
		mc.State(m + p)
	case k == 7: // unknown paths
		paths := []string{"/trace", "/traces/", "/traces/7a/1/2", "/traces/7a/1/profile/x", "/x", "/dashboard/", "/dashboard/x", "/aggregate/7a", "/traces/upload/profile", "/static", "/static/none", "/static/../traces", "//traces/7a/x/y"}
		p := paths[t.Choose(len(paths), "path")]
		w := in.get(p)
		if w.Code < 300 || w.Code < 400 && w.Header().Get("Location") == "" || strings.Contains(w.Body.String(), "handler panic") || strings.Contains(w.Body.String(), "</html>") {
			t.Fail("GET %s: status %d: %.200s", p, w.Code, w.Body)
		}
		mc.State(p)
	case k == 8: // dashboard queries
		in.app.Aggregator = noAgg{}
		q := []string{"start=x", "end=x", "start=1&end=", "start=1&end=1.5", "start=99999999999999999999", "end=-99999999999999999999", "start=+", "start=%ff"}
		i := t.Choose(len(q), "query")
		w := in.get("/dashboard/data?" + q[i])
		if msg := refused(w); i != 2 && msg != "" {
			t.Fail("dashboard data with %s: %s", q[i], msg)
		}
		mc.State(q[i])
	}
	in.check("after errors")
}

// failing answers as chosen.
type failing struct {
	*appdash.MemoryStore
	trace, traces int
}

func (f failing) Trace(id appdash.ID) (*appdash.Trace, error) {
	switch f.trace {
	case 1:
		return nil, errFault
	case 2:
		return nil, appdash.ErrTraceNotFound
	case 3:
		panic(errors.New("the store panics"))
	}
	return f.MemoryStore.Trace(id)
}

func (f failing) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	switch f.traces {
	case 1:
		return nil, errFault
	case 2:
		return nil, appdash.ErrTraceNotFound
	case 3:
		panic("the queryer panics")
	}
	return f.MemoryStore.Traces(o)
}

type failAgg struct{ how int }

func (f failAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	switch f.how {
	case 1:
		return nil, errFault
	case 2:
		panic("the aggregator panics")
	}
	return nil, nil
}

func c31store(t *mc.T) {
	in := newInst(t)
	in.collect(hx.ID(0x7a, 1, 0), hx.A("Name", "root"))
	in.collect(hx.ID(0x7a, 2, 1), hx.A("Name", "child"))
	f := failing{in.store, t.Choose(4, "Trace"), t.Choose(4, "Traces")}
	in.app.Store, in.app.Queryer = f, f
	in.app.Aggregator = failAgg{t.Choose(3, "Aggregate")}
	must := func(u string, bad bool) {
		w := in.get(u)
		if !bad {
			if w.Code != 200 || length(w) != "" {
				t.Fail("GET %s: status %d: %.200s", u, w.Code, w.Body)
			}
			return
		}
		if b := w.Body.String(); w.Code < 400 || strings.Contains(b, "<html") || length(w) != "" {
			t.Fail("GET %s while the store fails: status %d: %.200s %s", u, w.Code, b, length(w))
		}
	}
	in.page("/")
	for _, u := range []string{"/traces/7a", "/traces/7a/2", "/traces/7a/profile", "/traces/7a/2/profile"} {
		must(u, f.trace > 0)
	}
	for _, u := range []string{"/traces", "/traces?show=7a", "/aggregate", "/aggregate?selection=7a"} {
		must(u, f.traces > 0)
	}
	must("/dashboard/data", in.app.Aggregator.(failAgg).how > 0)
	must("/dashboard", false)
	mc.State(fmt.Sprint(f.trace, f.traces, in.app.Aggregator))
}

func c31lists(t *mc.T, max int) {
	in := newInst(t)
	ids := []appdash.ID{1, 0x20, 1<<64 - 1}
	mask := t.Choose(8, "stored")
	stored := map[appdash.ID]bool{}
	for i, id := range ids {
		if mask>>i&1 == 1 {
			in.collect(appdash.SpanID{Trace: id, Span: 5}, hx.A("Name", fmt.Sprint("trace", i)))
			in.collect(appdash.SpanID{Trace: id, Span: 6, Parent: 5}, hx.A("Name", "child"))
			stored[id] = true
		}
	}
	n := t.Choose(max+1, "requested")
	var q []string
	want := map[appdash.ID]bool{}
	for i := 0; i < n; i++ {
		k := t.Choose(4, "identifier")
		id := appdash.ID(0x99)
		if k < 3 {
			id = ids[k]
		}
		q = append(q, id.String())
		if stored[id] {
			want[id] = true
		}
	}
	u := "/traces"
	if n > 0 {
		u += "?show=" + strings.Join(q, ",")
	} else {
		want = stored
	}
	var ws []string
	for id := range want {
		ws = append(ws, id.String())
	}
	sort.Strings(ws)
	if got := listed(t, in, u); strings.Join(got, " ") != strings.Join(ws, " ") {
		t.Fail("GET %s lists %v instead of %v (stored: %v)", u, got, ws, stored)
	}
	mc.State(fmt.Sprint(mask, want))
}

func c31router(t *mc.T) {
	ids := []appdash.ID{1, 2, 9, 0xa, 0xf, 0x10, 0xabcdef0123456789, 1 << 63, 1<<63 - 1, 1<<64 - 1, 0xe0}
	tr, span := ids[t.Choose(len(ids), "trace")], ids[t.Choose(len(ids), "span")]
	kind := t.Choose(5, "router")
	var in *inst
	var h http.Handler
	switch kind {
	case 0:
		in = newInst(t)
	case 1:
		in = newInstAt(t, mux.NewRouter(), "http://example.com/")
	case 2, 3: // below a prefix
		r := mux.NewRouter()
		in = newInstAt(t, r.PathPrefix("/appdash").Subrouter(), "http://example.com/appdash")
		if kind == 3 {
			h = r
		}
	case 4: // among other routes
		r := mux.NewRouter()
		r.Path("/mine").HandlerFunc(func(w http.ResponseWriter, r *http.Request) {})
		in = newInstAt(t, r, "https://example.com:8080/x/")
	}
	if h == nil {
		h = in.app
	}
	root, child := appdash.SpanID{Trace: tr, Span: span}, appdash.SpanID{Trace: tr, Span: span + 1, Parent: span}
	if child.Span == 0 {
		child.Span = span - 1
	}
	in.collect(root, hx.A("Name", "the root"))
	in.collect(child, hx.A("Name", "the child"))
	in.collect(appdash.SpanID{Trace: tr ^ 3, Span: span}, hx.A("Name", "another"))
	get := func(u *url.URL, err error) *httptest.ResponseRecorder {
		if err != nil {
			t.Fail("URL: %v", err)
		}
		if (kind == 2 || kind == 3) != strings.HasPrefix(u.Path, "/appdash/") {
			t.Fail("the URL %s", u)
		}
		w := do(h, "GET", u.String(), "")
		if w.Code != 200 {
			t.Fail("GET %s: status %d: %.200s", u, w.Code, w.Body)
		}
		return w
	}
	html := func(u *url.URL, err error) string {
		w := get(u, err)
		if msg := complete(w); msg != "" {
			t.Fail("GET %s: %s", u, msg)
		}
		return w.Body.String()
	}
	profile := func(u *url.URL, err error) []string {
		var l []struct{ Name string }
		if err := json.Unmarshal(get(u, err).Body.Bytes(), &l); err != nil {
			t.Fail("profile %s: %v", u, err)
		}
		var ns []string
		for _, r := range l {
			ns = append(ns, r.Name)
		}
		return ns
	}
	if msg := spanPage(html(in.app.URLToTrace(tr)), tr, root.Span); msg != "" {
		t.Fail("URLToTrace: %s", msg)
	}
	for _, id := range []appdash.SpanID{root, child} {
		if msg := spanPage(html(in.app.URLToTraceSpan(tr, id.Span)), tr, id.Span); msg != "" {
			t.Fail("URLToTraceSpan: %s", msg)
		}
	}
	if l := profile(in.app.URLToTraceProfile(tr)); fmt.Sprint(l) != "[the root the child]" {
		t.Fail("URLToTraceProfile leads to the profile of %v", l)
	}
	if l := profile(in.app.URLToTraceSpanProfile(tr, child.Span)); fmt.Sprint(l) != "[the child]" {
		t.Fail("URLToTraceSpanProfile leads to the profile of %v", l)
	}
	for _, rt := range []string{traceapp.RootRoute, traceapp.TracesRoute, traceapp.AggregateRoute} {
		html(in.app.URLTo(rt))
	}
	if l := attrs(html(in.app.URLTo(traceapp.TracesRoute)), regexp.MustCompile(`<a href="((?:/appdash)?/traces/[0-9a-f]{16})">`)); len(l) != 2 {
		t.Fail("the list has the links %v", l)
	}
	if u, err := in.app.URLTo("no such route"); err == nil {
		t.Fail("the URL of an unknown route: %v", u)
	}
	mc.State(fmt.Sprint(tr, span, kind))
}

var (
	reLinks = []*regexp.Regexp{
		regexp.MustCompile(`(?:href|src)=["']([^"']*)["']`),
		regexp.MustCompile(`\$\.(?:post|get|ajax|getJSON)\("([^"]*)"`),
		regexp.MustCompile(`data-url=["']([^"']*)["']`),
		regexp.MustCompile(`"(?:url|URL)":"([^"]*)"`),
	}
	reJSBase = regexp.MustCompile(`= "([^"]*)" \+ "([^"]*)"`)
	reBase   = regexp.MustCompile(`<base href="([^"]*)">`)
)

// c31links follows the links of a page.
func c31links(t *mc.T) {
	kinds := []struct{ prefix, base string }{
		{"", "http://example.com"}, {"", "http://example.com/"}, {"", "https://example.com:8443"}, {"", "http://[::1]:80/"},
		{"/appdash", "http://example.com/appdash"}, {"/appdash", "http://example.com/appdash/"}, {"/a/b", "https://example.com/a/b"}, {"/a b", "http://example.com/a%20b"},
	}
	k := kinds[t.Choose(len(kinds), "base URL and router")]
	r := mux.NewRouter()
	var in *inst
	if k.prefix == "" {
		in = newInstAt(t, r, k.base)
	} else {
		in = newInstAt(t, r.PathPrefix(k.prefix).Subrouter(), k.base)
	}
	agg := t.Choose(2, "aggregator") == 1
	if agg {
		in.app.Aggregator = noAgg{}
	}
	in.collect(hx.ID(7, 1, 0), append(event(t, appdash.SpanName("root")), tspan(t, at(0), at(time.Second))...)...)
	in.collect(hx.ID(7, 2, 1), append(event(t, appdash.SpanName("child")), tspan(t, at(0), at(time.Second))...)...)
	in.collect(hx.ID(8, 1, 0), event(t, appdash.SpanName("other"))...)
	pages := []string{"/", "/traces", "/traces/7", "/traces/7/2", "/aggregate", "/traces/7/profile"}
	if agg {
		pages = append(pages, "/dashboard")
	}
	page := k.prefix + pages[t.Choose(len(pages), "page")]
	page = (&url.URL{Path: page}).String()
	w := do(r, "GET", page, "")
	b := w.Body.String()
	base, err := url.Parse(k.base + page)
	if err != nil {
		t.Fail("%v", err)
	}
	var links []string
	if strings.HasSuffix(page, "/profile") {
		if w.Code != 200 {
			t.Fail("GET %s: status %d", page, w.Code)
		}
	} else {
		if msg := complete(w); msg != "" {
			t.Fail("GET %s: %s", page, msg)
		}
		l := attrs(b, reBase)
		if len(l) != 1 || strings.TrimSuffix(l[0], "/") != strings.TrimSuffix(k.base, "/") {
			t.Fail("the page %s of %s has the base URL %q", page, k.base, l)
		}
		if base, err = url.Parse(l[0]); err != nil {
			t.Fail("%v", err)
		}
	}
	for _, re := range reLinks {
		links = append(links, attrs(b, re)...)
	}
	for _, m := range reJSBase.FindAllStringSubmatch(b, -1) {
		links = append(links, strings.ReplaceAll(m[1], `\/`, "/")+m[2])
	}
	if len(links) == 0 {
		t.Fail("no links on page %s", page)
	}
	i := t.Choose(len(links), "link")
	l := links[i]
	u, err := base.Parse(l)
	if err != nil {
		t.Fail("the link %q on page %s of %s: %v", l, page, k.base, err)
	}
	mc.State(fmt.Sprint(k, page, i))
	if u.Host != base.Host || strings.HasPrefix(l, "#") || l == "" {
		if (u.Host == "" || strings.HasPrefix(u.Host, "example.com")) && !strings.HasPrefix(l, "#") {
			t.Fail("the link %q on page %s of %s leads to %s", l, page, k.base, u)
		}
		return
	}
	if u.Scheme != base.Scheme || !strings.HasPrefix(u.Path, k.prefix+"/") {
		t.Fail("the link %q on page %s of %s leads out of the application, to %s", l, page, k.base, u)
	}
	method, body := "GET", ""
	if strings.HasSuffix(u.Path, "/upload") {
		method, body = "POST", "[]"
	}
	a := do(r, method, u.RequestURI(), body)
	static := strings.HasPrefix(u.Path, k.prefix+"/static/")
	if a.Code != 200 || static && !strings.HasPrefix(a.Body.String(), "static file /") || !static && strings.HasPrefix(a.Body.String(), "static file") {
		t.Fail("the link %q on page %s of %s leads to %s: status %d: %.100q", l, page, k.base, u, a.Code, a.Body)
	}
}

// broken is a client that goes away.
type broken struct {
	*httptest.ResponseRecorder
	n int
}

func (b broken) Write(p []byte) (int, error) {
	if b.n < len(p) {
		return b.n, errors.New("the client has gone")
	}
	return b.ResponseRecorder.Write(p)
}

func c31sequences(t *mc.T, n int) {
	in := newInst(t)
	in.collect(hx.ID(0x7a, 1, 0), hx.A("Name", "root"))
	in.collect(hx.ID(0x7a, 2, 1), hx.A("Name", "child"), hx.A("k", "v"))
	in.collect(hx.ID(0x8, 1, 0), hx.A("Name", "other"), hx.A("l", "w"))
	pages := []string{"/traces/7a", "/traces/7a/2", "/traces/8", "/traces", "/traces/7a/profile", "/aggregate?view-mode=span", "/traces/99", "/aggregate?selection=x", "/"}
	for i := 0; i < n; i++ {
		k := t.Choose(len(pages)+5, "request")
		switch k - len(pages) {
		case 0:
			in.collect(hx.ID(0x7a, 3, 2), hx.A("Name", "late"), hx.A("n", fmt.Sprint(i)))
			continue
		case 1:
			if err := in.store.Delete(0x8); err != nil {
				t.Fail("Delete: %v", err)
			}
			in.m.Delete(0x8)
			continue
		case 2:
			do(in.app, "POST", "/traces/upload", jsonOf(t, tr(hx.ID(0x99, 5, 0), []appdash.Annotation{hx.A("Name", fmt.Sprint("imported", i))})))
			if in.m.T[0x99] == nil {
				in.m.Collect(hx.ID(0x99, 5, 0), hx.A("Name", fmt.Sprint("imported", i)))
			}
			continue
		case 3:
			do(in.app, "POST", "/traces/upload", "[null")
			continue
		case 4:
			u, _ := url.Parse("/traces/7a")
			in.app.ServeHTTP(broken{httptest.NewRecorder(), 100}, &http.Request{Method: "GET", URL: u, Header: http.Header{}, Host: "example.com", RequestURI: "/traces/7a"})
			continue
		}
		a := in.get(pages[k])
		other := newInst(t)
		for id := range in.m.T {
			for _, s := range in.m.T[id].Spans {
				other.collect(s.ID, s.Anns...)
			}
		}
		b := other.get(pages[k])
		x, y := a.Body.String(), b.Body.String()
		if pages[k] == "/traces" || strings.HasPrefix(pages[k], "/aggregate") { // in any order
			l, r := strings.Split(x, ""), strings.Split(y, "")
			sort.Strings(l)
			sort.Strings(r)
			x, y = strings.Join(l, ""), strings.Join(r, "")
		}
		if a.Code != b.Code || x != y || length(a) != "" {
			t.Fail("GET %s after other requests is answered %d:\n%.500s\ninstead of %d:\n%.500s", pages[k], a.Code, diff(a.Body.String(), b.Body.String()), b.Code, diff(b.Body.String(), a.Body.String()))
		}
	}
	in.check("after all requests")
	mc.State(hx.StoreTree(in.store))
}

// diff cuts a down to where it differs from b.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[max(0, i-60):]
}

var c31kinds = []string{"a page and collection", "pages", "imports and deletions"}

func c31conc(t *mc.T, kind int, wide bool) {
	in := newInst(t)
	traceapp.ReloadTemplates = kind == 1 && t.Choose(2, "reload") == 1
	sync := lockedStore{in.store}
	in.app.Store, in.app.Queryer = sync, sync
	type step struct {
		id appdash.SpanID
		as []appdash.Annotation
	}
	ann := func(i int) []appdash.Annotation {
		return append([]appdash.Annotation{hx.A("Name", fmt.Sprint("span", i)), hx.A("k", strings.Repeat("v", i))}, tspan(t, at(time.Duration(i)*time.Second), at(time.Minute))...)
	}
	in.collect(hx.ID(7, 1, 0), ann(1)...)
	steps := []step{{hx.ID(7, 2, 1), ann(2)}, {hx.ID(7, 1, 0), []appdash.Annotation{hx.A("late", "x")}}, {hx.ID(7, 3, 2), ann(3)}}
	if !wide {
		steps = steps[:2]
	}
	// the states that a page may show
	may := map[string]int{}
	ref := appdash.NewMemoryStore()
	ref.Collect(hx.ID(7, 1, 0), ann(1)...)
	for i := 0; ; i++ {
		x, err := ref.Trace(7)
		if err != nil {
			t.Fail("%v", err)
		}
		may[hx.Tree(x)] = i
		if i == len(steps) {
			break
		}
		ref.Collect(steps[i].id, steps[i].as...)
	}
	state := func(what, data string) int {
		var l []*appdash.Trace
		if err := json.Unmarshal([]byte(data), &l); err != nil || len(l) != 1 || l[0] == nil {
			mc.Fail("%s: %v: %.300s", what, err, data)
		}
		k, ok := may[hx.Tree(l[0])]
		if !ok {
			mc.Fail("%s shows what was never there: %s", what, hx.Tree(l[0]))
		}
		return k
	}
	one := func(page string, re *regexp.Regexp) string {
		l := attrs(page, re)
		if len(l) != 1 {
			mc.Fail("a page has %d matches of %v", len(l), re)
		}
		return l[0]
	}
	tracePage := func() (k int) {
		w := do(in.app, "GET", "/traces/7", "")
		if msg := complete(w); msg != "" {
			mc.Fail("GET /traces/7: %s", msg)
		}
		p := w.Body.String()
		k = state("the text to export", one(p, reArea))
		if l := state("the text for the clipboard", one(p, reClipJSON)); l != k {
			mc.Fail("one page shows the trace as it was after %d and after %d collections", k, l)
		}
		var tl []struct {
			SpanID  string            `json:"spanID"`
			RawData map[string]string `json:"rawData"`
		}
		m := reVis.FindStringSubmatch(p)
		if m == nil {
			mc.Fail("the page has no timeline")
		}
		if err := json.Unmarshal([]byte(m[1]), &tl); err != nil {
			mc.Fail("timeline: %v", err)
		}
		n, late := 1, false
		if k >= 1 {
			n++
		}
		if k >= 3 {
			n++
		}
		if len(tl) > 0 {
			_, late = tl[0].RawData["late"]
		}
		if len(tl) != n || late != (k >= 2) {
			mc.Fail("a page shows the trace as it was after %d collections with a timeline of %d spans (late: %v)", k, len(tl), late)
		}
		return k
	}
	list := func() (k int) {
		w := do(in.app, "GET", "/traces?show=7", "")
		if msg := complete(w); msg != "" {
			mc.Fail("GET /traces: %s", msg)
		}
		return state("the list", "["+one(w.Body.String(), reListJSON)+"]")
	}
	var ts []*mc.T
	spawn := func(name string, f func()) { ts = append(ts, t.Go(name, f)) }
	twice := func(f func() int) func() {
		return func() {
			a := f()
			if b := f(); b < a {
				mc.Fail("a page shows the trace after %d collections, a later one after %d", a, b)
			}
		}
	}
	collect := func() {
		for _, s := range steps {
			if err := in.store.Collect(s.id, s.as...); err != nil {
				mc.Fail("Collect: %v", err)
			}
		}
	}
	final := 0
	switch kind {
	case 0:
		k := t.Choose(3, "page")
		spawn("page", []func(){twice(tracePage), twice(list), func() {
			w := do(in.app, "GET", "/traces/7/profile", "")
			var l []struct{ Name string }
			if err := json.Unmarshal(w.Body.Bytes(), &l); w.Code != 200 || err != nil || len(l) == 0 || len(l) > 3 || l[0].Name != "span1" {
				mc.Fail("profile: %d %v %s", w.Code, err, w.Body)
			}
			if msg := complete(do(in.app, "GET", "/aggregate?view-mode=span", "")); msg != "" {
				mc.Fail("aggregate: %s", msg)
			}
		}}[k])
		spawn("collect", collect)
		final = len(steps)
	case 1:
		k := t.Choose(3, "pages")
		fs := []func(){func() { tracePage() }, func() { list() }, func() {
			if msg := complete(do(in.app, "GET", "/", "")); msg != "" {
				mc.Fail("GET /: %s", msg)
			}
		}}
		spawn("page1", fs[k])
		spawn("page2", fs[(k+1)%3])
		if wide {
			spawn("page3", fs[k])
		}
	case 2:
		up := jsonOf(t, tr(hx.ID(8, 1, 0), []appdash.Annotation{hx.A("Name", "imported")}, tr(hx.ID(8, 2, 1), []appdash.Annotation{hx.A("Name", "sub")})))
		if t.Choose(2, "deletion") == 1 {
			spawn("delete", func() {
				if err := in.store.Delete(8); err != nil {
					mc.Fail("Delete: %v", err)
				}
			})
		} else {
			spawn("collect", collect)
			final = len(steps)
		}
		spawn("import", func() {
			if w := do(in.app, "POST", "/traces/upload", up); w.Code != 200 {
				mc.Fail("upload: %d %s", w.Code, w.Body)
			}
		})
		spawn("page", func() {
			list()
			w := do(in.app, "GET", "/traces/8", "")
			if w.Code >= 400 {
				if msg := refused(w); msg != "" {
					mc.Fail("GET /traces/8: %s", msg)
				}
			} else if msg := complete(w); msg != "" {
				mc.Fail("GET /traces/8: %s", msg)
			}
		})
	}
	t.Join(ts...)
	mc.Calm()
	if k := tracePage(); k != final {
		t.Fail("after everything the page shows %d collections instead of %d", k, final)
	}
	mc.State(fmt.Sprint(kind, hx.StoreTree(in.store)))
}

var reVis = regexp.MustCompile(`(?m)var data = (.*);$`)

// lockedStore has its own methods, so that a change of the interfaces is seen.
type lockedStore struct{ *appdash.MemoryStore }
