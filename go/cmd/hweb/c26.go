package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// timing is what is recorded about the time of a span, and its longest time in rounded milliseconds.
type timing struct {
	name   string
	anns   func(t *mc.T) []appdash.Annotation
	alts   []int64 // further figures that are right
	figure int64
}

func at(d time.Duration) time.Time { return mc.Epoch.Add(d) }

func span(d time.Duration) func(t *mc.T) []appdash.Annotation {
	return func(t *mc.T) []appdash.Annotation { return tspan(t, at(0), at(d)) }
}

var timings = []timing{
	{name: "none", anns: func(t *mc.T) []appdash.Annotation { return nil }},
	{name: "7ms", anns: span(7 * time.Millisecond), figure: 7},
	{name: "0", anns: span(0)},
	{name: "1.4ms", anns: span(1400 * time.Microsecond), figure: 1},
	{name: "1.6ms", anns: span(1600 * time.Microsecond), figure: 2},
	{name: "0.5ms", anns: span(500 * time.Microsecond), figure: 1},
	{name: "reversed", anns: span(-5 * time.Millisecond)},
	{name: "two, the longer first", anns: func(t *mc.T) []appdash.Annotation {
		c := httptrace.NewClientEvent(&http.Request{URL: &url.URL{Path: "/x"}})
		c.ClientSend, c.ClientRecv = at(0), at(30*time.Millisecond)
		return append(event(t, *c), tspan(t, at(0), at(4*time.Millisecond))...)
	}, figure: 30},
	{name: "two, the longer last", anns: func(t *mc.T) []appdash.Annotation {
		return append(event(t, sqltrace.SQLEvent{SQL: "SELECT 1", ClientSend: at(50 * time.Millisecond), ClientRecv: at(53 * time.Millisecond)}), tspan(t, at(0), at(40*time.Millisecond))...)
	}, figure: 40},
	{name: "two at different times", anns: func(t *mc.T) []appdash.Annotation {
		s := httptrace.NewServerEvent(&http.Request{URL: &url.URL{Path: "/x"}})
		s.ServerRecv, s.ServerSend = at(time.Hour), at(time.Hour+9*time.Millisecond)
		return append(event(t, *s), tspan(t, at(0), at(8*time.Millisecond))...)
	}, figure: 9},
	{name: "garbage", anns: func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:Timespan", ""), hx.A("Span.Start", "never"), hx.A("Span.End", "")}
	}},
	{name: "1.2ms from 0.4", anns: func(t *mc.T) []appdash.Annotation {
		return tspan(t, at(400*time.Microsecond), at(1600*time.Microsecond))
	}, figure: 1},
	{name: "0.8ms from 0.1", anns: func(t *mc.T) []appdash.Annotation {
		return tspan(t, at(100*time.Microsecond), at(900*time.Microsecond))
	}, figure: 1},
	{name: "2.3ms from 0.9", anns: func(t *mc.T) []appdash.Annotation {
		return tspan(t, at(900*time.Microsecond), at(3200*time.Microsecond))
	}, figure: 2},
	{name: "a day", anns: span(24 * time.Hour), figure: 86400000},
}

// pspan is a span of the model.
type pspan struct {
	id    appdash.SpanID
	par   int
	name  string
	ms    int64
	label string
}

// C26: profiles, aggregates and the dashboard.
func init() {
	kit.Prop("C26", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Body: body, Opt: mc.Options{MapOrder: 2, Bound: 1}})
		}
		add("profile/1", "one span with all pairs of 15 timings and 3 names", func(t *mc.T) { c26profile(t, 1, len(timings), 3, true) })
		add("profile/2", "both orders of collection of two spans with all timings and 3 names", func(t *mc.T) { c26profile(t, 2, len(timings), 3, true) })
		add("profile/3", "all trees of 3 spans with 8 timings each and two orders of collection", func(t *mc.T) { c26profile(t, 3, 8, 1, true) })
		add("profile/4", fmt.Sprintf("all trees of 4 spans with %d timings each", pick(tier, 3, 5)), func(t *mc.T) { c26profile(t, 4, pick(tier, 3, 5), 1, false) })
		if tier != "quick" {
			add("profile/5", "all trees of 5 spans with 3 timings each", func(t *mc.T) { c26profile(t, 5, 3, 1, false) })
			add("profile/6", "all trees of 6 spans with 2 timings each", func(t *mc.T) { c26profile(t, 6, 2, 1, false) })
		}
		for mode := 0; mode < 3; mode++ {
			mode := mode
			for k := 0; k < 4; k++ {
				k := k
				us = append(us, &kit.Unit{Name: fmt.Sprintf("aggregate/%s/%d", modes[mode].q, k), Body: func(t *mc.T) { c26agg(t, mode, k, pick(tier, 2, 3)) },
					Rule: fmt.Sprintf("one to %d traces, of up to 3 spans (shape of the first one fixed), with 3 names and 3 timings for the first and 2 for the others, all selections", pick(tier, 2, 3))})
			}
		}
		add("aggregate/modes", "every spelling of the view mode, malformed selections", c26modes)
		add("dashboard", "all lists of up to two results, time ranges, errors of the aggregator", c26dash)
		return
	})
}

// build makes a trace by choices.
func c26build(t *mc.T, in *inst, trace uint64, par []int, nTimings, nNames int, order bool) (ps []*pspan) {
	for i, p := range par {
		s := &pspan{id: hx.ID(trace, trace*16+uint64(i)+1, 0), par: p}
		if p >= 0 {
			s.id.Parent = ps[p].id.Span
		}
		s.name = []string{fmt.Sprintf("span %d", i), "", "ünï<>&\"'"}[t.Choose(nNames, "name")]
		ps = append(ps, s)
	}
	var anns [][]appdash.Annotation
	for _, s := range ps {
		tm := timings[t.Choose(nTimings, "timing")]
		s.ms = tm.figure
		as := tm.anns(t)
		if s.name != "" {
			as = append(event(t, appdash.SpanName(s.name)), as...)
		}
		anns = append(anns, as)
		s.label = s.name
		if s.name == "" {
			s.label = s.id.Span.String()
		}
	}
	idx := make([]int, len(ps))
	for i := range idx {
		idx[i] = i
	}
	if order && t.Choose(2, "order of collection") == 1 {
		for i := range idx {
			idx[i] = len(idx) - 1 - i
		}
	}
	for _, i := range idx {
		in.collect(ps[i].id, anns[i]...)
	}
	return
}

type figures struct {
	Name                        string
	URL                         string
	Time, TimeChildren, TimeCum int64
}

// figuresOf computes the profile of the subtree of span k, in the order of the stored tree.
func figuresOf(ps []*pspan, tr *appdash.Trace) (l []figures) {
	byID := map[appdash.ID]*pspan{}
	for _, p := range ps {
		byID[p.id.Span] = p
	}
	var walk func(tr *appdash.Trace) int64
	walk = func(tr *appdash.Trace) int64 {
		p := byID[tr.Span.ID.Span]
		k := len(l)
		l = append(l, figures{Name: p.label, Time: p.ms, TimeChildren: p.ms, TimeCum: p.ms})
		for _, c := range tr.Sub {
			cum := walk(c)
			l[k].TimeChildren += byID[c.Span.ID.Span].ms
			l[k].TimeCum += cum
		}
		return l[k].TimeCum
	}
	walk(tr)
	return
}

func flatIDs(tr *appdash.Trace) (l []appdash.SpanID) {
	ns, _ := hx.Flatten(tr)
	for _, n := range ns {
		l = append(l, n.T.Span.ID)
	}
	return
}

func c26profile(t *mc.T, n, nTimings, nNames int, order bool) {
	in := newInst(t)
	ss := shapes(n)
	ps := c26build(t, in, 3, ss[t.Choose(len(ss), "shape")], nTimings, nNames, order)
	c26other(in)
	mc.Calm()
	for k := -1; k < len(ps); k++ {
		u, err := in.app.URLToTraceProfile(3)
		root := ps[0].id.Span
		if k >= 0 {
			root = ps[k].id.Span
			u, err = in.app.URLToTraceSpanProfile(3, root)
		}
		if err != nil {
			t.Fail("URL of the profile: %v", err)
		}
		c26compare(t, in, u.String(), root, ps)
	}
	in.check("after the profile requests")
	var fs []string
	for _, p := range ps {
		fs = append(fs, fmt.Sprint(p.par, p.ms))
	}
	mc.State(strings.Join(fs, " "))
}

// c26other stores another trace with the same span IDs.
func c26other(in *inst) appdash.ID {
	in.collect(hx.ID(9, 3*16+1, 0), tspan(in.t, at(0), at(time.Second))...)
	in.collect(hx.ID(9, 3*16+2, 3*16+1), tspan(in.t, at(0), at(time.Second))...)
	return 9
}

func c26compare(t *mc.T, in *inst, target string, root appdash.ID, ps []*pspan) {
	w := in.get(target)
	var got []figures
	if err := json.Unmarshal(w.Body.Bytes(), &got); w.Code != 200 || err != nil {
		t.Fail("GET %s: status %d, %v: %.300s", target, w.Code, err, w.Body)
	}
	tr, err := in.store.Trace(3)
	if err != nil {
		t.Fail("Trace: %v", err)
	}
	tr = find(tr, root)
	want := figuresOf(ps, tr)
	ids := flatIDs(tr)
	if len(got) != len(want) {
		t.Fail("the profile %s lists %d spans instead of %d: %s", target, len(got), len(want), w.Body)
	}
	for i := range got {
		g := got[i]
		m := spanURL.FindStringSubmatch(g.URL)
		wantSpan := ids[i].Span.String()
		if ids[i].Parent == 0 && m != nil && m[2] == "" {
			wantSpan = ""
		}
		if m == nil || m[1] != ids[i].Trace.String() || m[2] != wantSpan {
			t.Fail("entry %d of the profile %s leads to %q instead of span %v (in tree order): %s", i, target, g.URL, ids[i], w.Body)
		}
		g.URL = ""
		if g != want[i] {
			t.Fail("entry %d of the profile %s is %+v instead of %+v: %s", i, target, g, want[i], w.Body)
		}
	}
}

// find is FindSpan, independently of the code.
func find(tr *appdash.Trace, id appdash.ID) *appdash.Trace {
	ns, _ := hx.Flatten(tr)
	for _, n := range ns {
		if n.T.Span.ID.Span == id {
			return n.T
		}
	}
	return nil
}

type aggItem struct {
	Label string `json:"label"`
	Value int64  `json:"value"`
}

var aggData = regexp.MustCompile(`(?m)var data = (.*);$`)

// aggregated reads the aggregate page.
func aggregated(t *mc.T, in *inst, query string) map[string]int64 {
	page := in.page("/aggregate" + query)
	m := aggData.FindStringSubmatch(page)
	if m == nil {
		t.Fail("the aggregate page has no data")
	}
	var l []aggItem
	if err := json.Unmarshal([]byte(m[1]), &l); err != nil {
		t.Fail("data of the aggregate page: %v: %s", err, m[1])
	}
	r := map[string]int64{}
	for _, i := range l {
		if _, ok := r[i.Label]; ok {
			t.Fail("the aggregate page has %q twice: %s", i.Label, m[1])
		}
		r[i.Label] = i.Value
	}
	return r
}

var modes = []struct {
	q    string
	mode int
}{{"trace-only", 0}, {"span-only", 1}, {"trace-and-span", 2}, {"", 0}, {"nonsense", 0}}

// aggOf computes the aggregate of traces.
func aggOf(mode int, traces [][]*pspan) map[string]int64 {
	r := map[string]int64{}
	for _, ps := range traces {
		var sum int64
		for i, p := range ps {
			sum += p.ms
			switch {
			case i > 0 && mode == 1:
				r[p.label] += p.ms
			case i > 0 && mode == 2:
				r[ps[0].label+": "+p.label] += p.ms
			}
		}
		if mode == 0 {
			r[ps[0].label] += sum
		}
	}
	return r
}

func sameAgg(t *mc.T, what string, got, want map[string]int64) {
	ok := len(got) == len(want)
	for k, v := range want {
		g, has := got[k]
		// a slice of the chart must be positive: nothing is shown as 1 ms
		ok = ok && has && (g == v || v == 0 && g == 1)
	}
	if !ok {
		t.Fail("%s: the aggregate is %v instead of %v", what, got, want)
	}
}

func c26agg(t *mc.T, mode, first, max int) {
	in := newInst(t)
	var traces [][]*pspan
	n := t.Choose(max, "traces") + 1
	for i := 0; i < n; i++ {
		par := []int{-1}
		if i > 0 {
			par = [][]int{{-1}, {-1, 0}}[t.Choose(2, "spans")]
		} else {
			par = [][]int{{-1}, {-1, 0}, {-1, 0, 0}, {-1, 0, 1}}[first]
		}
		var ps []*pspan
		for k, p := range par {
			s := &pspan{id: hx.ID(uint64(i+1), uint64(10*i+k+1), 0), par: p}
			if p >= 0 {
				s.id.Parent = ps[p].id.Span
			}
			names := []string{"alpha", "beta", ""}
			s.name = names[t.Choose(pick3(i, k), "name")]
			tm := timings[t.Choose(pick3(i, 0), "timing")]
			s.ms = tm.figure
			s.label = s.name
			if s.name == "" {
				s.label = s.id.Span.String()
			}
			as := tm.anns(t)
			if s.name != "" {
				as = append(event(t, appdash.SpanName(s.name)), as...)
			}
			in.collect(s.id, as...)
			ps = append(ps, s)
		}
		traces = append(traces, ps)
	}
	q := "?view-mode=" + modes[mode].q
	sameAgg(t, "all traces", aggregated(t, in, q), aggOf(modes[mode].mode, traces))
	// selections
	for set := 1; set < 1<<n; set++ {
		var ids []string
		var sel [][]*pspan
		for i := n - 1; i >= 0; i-- {
			if set>>i&1 != 0 {
				ids = append(ids, traces[i][0].id.Trace.String())
				sel = append(sel, traces[i])
			}
		}
		if set == 1 {
			ids = append(ids, "00000000000000ff") // not stored
		}
		s := strings.Join(ids, ",")
		sameAgg(t, "selection "+s, aggregated(t, in, q+"&selection="+s), aggOf(modes[mode].mode, sel))
	}
	in.check("after the aggregate requests")
	mc.State(fmt.Sprint(aggOf(modes[mode].mode, traces)))
}

func pick3(i, k int) int {
	if i == 0 && k < 2 {
		return 3
	}
	return 2
}

func c26modes(t *mc.T) {
	in := newInst(t)
	var traces [][]*pspan
	for i := 0; i < 2; i++ {
		ps := []*pspan{{id: hx.ID(uint64(i+1), uint64(10*i+1), 0), name: "root", label: "root", ms: 7}, {id: hx.ID(uint64(i+1), uint64(10*i+2), uint64(10*i+1)), name: "sub", label: "sub", ms: 1}}
		in.collect(ps[0].id, append(event(t, appdash.SpanName("root")), timings[1].anns(t)...)...)
		in.collect(ps[1].id, append(event(t, appdash.SpanName("sub")), timings[3].anns(t)...)...)
		traces = append(traces, ps)
	}
	m := modes[t.Choose(len(modes), "mode")]
	q := "?view-mode=" + m.q
	if m.q == "" && t.Choose(2, "query") == 1 {
		q = "?"
	}
	sels := []string{"", "&selection=", "&selection=1", "&selection=2,1", "&selection=ff", "&selection=x", "&selection=1,x", "&selection=,", "&selection=10000000000000000", "&selection=1%2C2"}
	k := t.Choose(len(sels), "selection")
	want := [][][]*pspan{traces, traces, traces[:1], traces, nil, nil, nil, nil, nil, traces}[k]
	if k >= 5 && k <= 8 {
		if msg := refused(in.get("/aggregate" + q + sels[k])); msg != "" {
			t.Fail("malformed selection %q: %s", sels[k], msg)
		}
	} else {
		sameAgg(t, q+sels[k], aggregated(t, in, q+sels[k]), aggOf(m.mode, want))
	}
	mc.State(fmt.Sprint(m, k))
}

type fakeAgg struct {
	start, end time.Duration
	calls      int
	res        []*appdash.AggregatedResult
	err        error
}

func (f *fakeAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	f.start, f.end = start, end
	f.calls++
	return f.res, f.err
}

func c26dash(t *mc.T) {
	in := newInst(t)
	for i := uint64(1); i <= 4; i++ {
		in.collect(hx.ID(i, 10+i, 0), hx.A("Name", "n"))
	}
	if t.Choose(2, "aggregator") == 1 {
		for _, p := range []string{"/dashboard", "/dashboard/data"} {
			if msg := refused(in.get(p)); msg != "" {
				t.Fail("%s without an aggregator: %s", p, msg)
			}
		}
		if strings.Contains(in.page("/traces"), `"/dashboard"`) {
			t.Fail("a page links to the dashboard although there is none")
		}
		return
	}
	all := []*appdash.AggregatedResult{
		{RootSpanName: "a<b>&\"", Average: 5 * time.Millisecond, Min: time.Millisecond, Max: 9 * time.Millisecond, StdDev: 2 * time.Millisecond, Samples: 3, Slowest: []appdash.ID{2, 1}},
		{RootSpanName: "", Average: 90 * time.Second, Min: 0, Max: 24 * time.Hour, StdDev: time.Hour, Samples: 1, Slowest: []appdash.ID{3}},
		{RootSpanName: "c", Average: 1400 * time.Microsecond, Min: 1300 * time.Microsecond, Max: 2100 * time.Microsecond, StdDev: 400 * time.Microsecond, Samples: 1 << 40, Slowest: []appdash.ID{1<<64 - 1, 4}},
	}
	agg := &fakeAgg{}
	n := t.Choose(3, "results")
	for i := 0; i < n; i++ {
		agg.res = append(agg.res, all[t.Choose(len(all), "result")])
	}
	if t.Choose(2, "failure") == 1 {
		agg.err = errors.New("aggregation failed")
	}
	in.app.Aggregator = agg
	page := in.page("/dashboard")
	if !strings.Contains(html.UnescapeString(page), "/dashboard/data") {
		t.Fail("the dashboard does not ask for its data")
	}
	starts := []string{"0", "72", "71", "24", "", "x", "1.5"}
	si, ei := t.Choose(len(starts), "start"), t.Choose(len(starts), "end")
	w := in.get("/dashboard/data?start=" + starts[si] + "&end=" + starts[ei])
	if si >= 5 || ei >= 5 || agg.err != nil {
		if msg := refused(w); msg != "" {
			t.Fail("range %q to %q, error %v: %s", starts[si], starts[ei], agg.err, msg)
		}
		mc.State("refused")
		return
	}
	d := func(i int) time.Duration {
		return []time.Duration{-72 * time.Hour, 0, -time.Hour, -48 * time.Hour, 0}[i]
	}
	if agg.calls != 1 || agg.start != d(si) || si != 4 && agg.end != d(ei) {
		t.Fail("range %q to %q: Aggregate was called %d times, last with %v to %v", starts[si], starts[ei], agg.calls, agg.start, agg.end)
	}
	var rows []struct {
		Name                      string
		Average, Min, Max, StdDev int64
		Timespans                 int64
		URL                       string
	}
	if err := json.Unmarshal(w.Body.Bytes(), &rows); err != nil || w.Code != 200 {
		t.Fail("dashboard data: %d %v %s", w.Code, err, w.Body)
	}
	if len(rows) != len(agg.res) {
		t.Fail("%d rows for %d results: %s", len(rows), len(agg.res), w.Body)
	}
	for i, r := range rows {
		a := agg.res[i]
		ms := func(what string, got int64, d time.Duration) {
			if f := float64(d) / 1e6; float64(got) < f-1 || float64(got) > f+1 || d%time.Millisecond == 0 && got != int64(d/time.Millisecond) {
				t.Fail("%s is %d ms instead of %v", what, got, d)
			}
		}
		ms("average", r.Average, a.Average)
		ms("minimum", r.Min, a.Min)
		ms("maximum", r.Max, a.Max)
		ms("standard deviation", r.StdDev, a.StdDev)
		if r.Name != a.RootSpanName || r.Timespans != a.Samples {
			t.Fail("row %+v for the result %+v", r, a)
		}
		var want []string
		for _, id := range a.Slowest {
			if in.m.T[id] != nil {
				want = append(want, id.String())
			}
		}
		sort.Strings(want)
		if got := listed(t, in, r.URL); strings.Join(got, " ") != strings.Join(want, " ") {
			t.Fail("the URL %s of a row shows traces %v instead of the slowest %v", r.URL, got, want)
		}
	}
	mc.State(fmt.Sprint(n, si, ei))
}

var traceLink = regexp.MustCompile(`<a href="/traces/([0-9a-f]+)">`)

// listed gives the sorted trace IDs that a list shows.
func listed(t *mc.T, in *inst, target string) []string {
	l := attrs(in.page(target), traceLink)
	sort.Strings(l)
	return l
}
