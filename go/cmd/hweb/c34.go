package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

func spanEv(s, e time.Duration) appdash.Event { return appdash.Timespan{S: at(s), E: at(e)} }
func sqlEv(s, e time.Duration) appdash.Event {
	return sqltrace.SQLEvent{SQL: "select 1", Tag: "t", ClientSend: at(s), ClientRecv: at(e)}
}
func serverEv(s, e time.Duration) appdash.Event {
	ev := httptrace.NewServerEvent(&http.Request{Method: "GET", URL: &url.URL{Path: "/p"}})
	ev.ServerRecv, ev.ServerSend = at(s), at(e)
	return ev
}
func clientEv(s, e time.Duration) appdash.Event {
	ev := httptrace.NewClientEvent(&http.Request{Method: "GET", URL: &url.URL{Path: "/p"}})
	ev.ClientSend, ev.ClientRecv = at(s), at(e)
	return ev
}

const ms = time.Millisecond

// eventSets are the events that a span may have, the most telling ones first.
var eventSets = []func() []appdash.Event{
	func() []appdash.Event { return []appdash.Event{spanEv(0, 10*ms)} },
	func() []appdash.Event { return nil },
	func() []appdash.Event { return []appdash.Event{spanEv(5*ms, 10*ms), sqlEv(0, 7*ms)} },
	func() []appdash.Event { return []appdash.Event{clientEv(0, 9*ms), serverEv(2*ms, 30*ms)} },
	func() []appdash.Event { return []appdash.Event{serverEv(3*ms, 3*ms)} },
	func() []appdash.Event {
		return []appdash.Event{appdash.Timespan{S: time.Time{}, E: at(0)}, sqlEv(4*ms, 8*ms)}
	},
	func() []appdash.Event { return []appdash.Event{appdash.Timespan{S: at(0)}} },
	func() []appdash.Event {
		return []appdash.Event{spanEv(2*ms, 4*ms), sqlEv(1*ms, 2*ms), serverEv(3*ms, 8*ms), clientEv(4*ms, 5*ms)}
	},
	func() []appdash.Event { return []appdash.Event{spanEv(10*ms, 0), sqlEv(2*ms, 3*ms)} },
	func() []appdash.Event {
		return []appdash.Event{spanEv(1999*time.Microsecond, 3001*time.Microsecond)}
	},
	func() []appdash.Event { return []appdash.Event{spanEv(-40*365*24*time.Hour-ms, 24*time.Hour)} },
}

type tlTime struct {
	Label    string `json:"label"`
	Start    int64  `json:"starting_time"`
	End      int64  `json:"ending_time"`
	Duration int64  `json:"duration"`
}

type tlItem struct {
	Label        string            `json:"label"`
	FullLabel    string            `json:"fullLabel"`
	Times        []tlTime          `json:"times"`
	Data         map[string]string `json:"rawData"`
	SpanID       string            `json:"spanID"`
	ParentSpanID string            `json:"parentSpanID"`
	URL          string            `json:"url"`
	Visible      bool              `json:"visible"`
}

// C34: the timeline of a page.
func init() {
	kit.Prop("C34", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Body: body})
		}
		add("events", fmt.Sprintf("a root and a child with all pairs of %d sets of timed events, the page of the trace and of the child", len(eventSets)), func(t *mc.T) { c34(t, 2, len(eventSets), 1) })
		add("shapes", fmt.Sprintf("all trees of up to %d spans with all assignments of %d sets of timed events", pick(tier, 3, 4), pick(tier, 5, 6)), func(t *mc.T) { c34(t, pick(tier, 3, 4), pick(tier, 5, 6), 1) })
		add("names", fmt.Sprintf("all trees of up to %d spans with and without names and timed events", pick(tier, 3, 4)), func(t *mc.T) { c34(t, pick(tier, 3, 4), 2, 4) })
		return
	})
}

var reShow = regexp.MustCompile(`(?m)var showTimelineChart = (.*);$`)

func c34(t *mc.T, max, sets, names int) {
	in := newInst(t)
	n := max
	if max > 2 {
		n = t.Choose(max, "spans") + 1
	}
	ss := shapes(n)
	par := ss[t.Choose(len(ss), "shape")]
	type node struct {
		id    appdash.SpanID
		name  string
		evs   []appdash.TimespanEvent
		depth int
		anns  []appdash.Annotation
		sub   []int
	}
	nodes := make([]node, n)
	for i := range par {
		x := &nodes[i]
		x.id = hx.ID(0x77, uint64(0x10+i), 0)
		if i > 0 {
			x.id.Parent = nodes[par[i]].id.Span
			nodes[par[i]].sub = append(nodes[par[i]].sub, i)
		}
		x.name = []string{fmt.Sprint("span ", i), "", "</script>", "Serve"}[t.Choose(names, "name")]
		if x.name != "" || t.Choose(2, "empty name") == 1 {
			x.anns = event(t, appdash.SpanName(x.name))
		}
		for _, e := range eventSets[t.Choose(sets, "events")]() {
			x.anns = append(x.anns, event(t, e)...)
			if te := e.(appdash.TimespanEvent); !te.Start().IsZero() && !te.End().IsZero() {
				x.evs = append(x.evs, te)
			}
		}
		x.anns = append(x.anns, hx.A("extra", fmt.Sprint(i)))
		in.collect(x.id, x.anns...)
	}
	top := 0
	if n > 1 {
		top = t.Choose(n, "page of the span")
	}
	u := "/traces/77"
	if top > 0 {
		u += "/" + nodes[top].id.Span.String()
	}
	page := in.page(u)
	m, s := reVis.FindStringSubmatch(page), reShow.FindStringSubmatch(page)
	if m == nil || s == nil {
		t.Fail("the page has no timeline")
	}
	show := strings.TrimSpace(s[1]) == "true"
	var got []tlItem
	if err := json.Unmarshal([]byte(m[1]), &got); err != nil {
		t.Fail("timeline data: %v: %s", err, m[1])
	}
	var order []int
	nameless, namelessTimed, untimed := false, false, false
	var walk func(i, d int)
	walk = func(i, d int) {
		nodes[i].depth = d
		if len(nodes[i].evs) > 0 {
			order = append(order, i)
			namelessTimed = namelessTimed || nodes[i].name == ""
		} else {
			untimed = true
		}
		nameless = nameless || nodes[i].name == ""
		for _, c := range nodes[i].sub {
			walk(c, d+1)
		}
	}
	walk(top, 0)
	if !show {
		if !nameless {
			t.Fail("GET %s: the timeline is not shown although every span has a name", u)
		}
		if len(got) > 0 && namelessTimed {
			t.Fail("GET %s: the timeline that is not shown has %d items", u, len(got))
		}
		mc.State("not shown")
		return
	}
	if namelessTimed {
		t.Fail("GET %s: the timeline is shown although a timed span has no name", u)
	}
	if len(got) != len(order) {
		t.Fail("GET %s: the timeline shows %d spans instead of %d: %s", u, len(got), len(order), m[1])
	}
	for k, i := range order {
		g, x := got[k], nodes[i]
		bad := func(what string, v, w interface{}) {
			t.Fail("GET %s: %s of span %d in the timeline is %v instead of %v", u, what, i, v, w)
		}
		if g.SpanID != x.id.Span.String() {
			bad("identifier", g.SpanID, x.id.Span)
		}
		if g.Label != x.name || g.FullLabel != x.name {
			bad("label", g.Label+","+g.FullLabel, x.name)
		}
		pid := ""
		if x.id.Parent != 0 {
			pid = x.id.Parent.String()
		}
		if g.ParentSpanID != pid {
			bad("parent", g.ParentSpanID, pid)
		}
		w := in.get(g.URL)
		if w.Code != 200 || spanPage(w.Body.String(), x.id.Trace, x.id.Span) != "" {
			bad("URL", g.URL, "one of its page")
		}
		if vis := x.depth <= 1; g.Visible != vis && (vis || !untimed) {
			bad("visibility", g.Visible, vis)
		}
		if len(g.Data) != len(x.anns) {
			bad("data", g.Data, x.anns)
		}
		for _, a := range x.anns {
			if v, ok := g.Data[a.Key]; !ok || v != string(a.Value) {
				bad("annotation "+a.Key, v, string(a.Value))
			}
		}
		var want []string
		var lo, hi int64
		for j, e := range x.evs {
			a, b := e.Start().UnixNano()/1e6, e.End().UnixNano()/1e6
			if x.id.Parent == 0 {
				want = append(want, timeString(x.name, e.Schema(), a, b))
				continue
			}
			if j == 0 || a < lo {
				lo = a
			}
			if j == 0 || b > hi {
				hi = b
			}
		}
		if x.id.Parent != 0 {
			want = []string{timeString(x.name, "", lo, hi)}
		}
		var have []string
		for _, y := range g.Times {
			have = append(have, fmt.Sprintf("%d to %d, %s %q", y.Start, y.End, time.Duration(y.Duration), y.Label))
		}
		sort.Strings(want)
		sort.Strings(have)
		if fmt.Sprint(have) != fmt.Sprint(want) {
			bad("times", have, want)
		}
	}
	mc.State(m[1])
}

// timeString writes what the timeline must show for an event.
func timeString(name, schema string, a, b int64) string {
	var d time.Duration
	l := schema
	if b > a {
		d = time.Duration(b-a) * ms
		l = fmt.Sprintf("%s (%s)", name, d)
	}
	return fmt.Sprintf("%d to %d, %s %q", a, b, d, l)
}
