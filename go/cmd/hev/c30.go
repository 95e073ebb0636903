package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// importantEvent is registered and declares important keys.
type importantEvent struct{ V string }

func (importantEvent) Schema() string      { return "important" }
func (importantEvent) Important() []string { return []string{"V", "other.key", "V"} }

// plainEvent has timed fields but is no timespan event; it is registered.
type plainEvent struct{ Start, End time.Time }

func (plainEvent) Schema() string { return "plain" }

func init() {
	mc.RegisterReset(func() {
		appdash.RegisterEvent(importantEvent{})
		appdash.RegisterEvent(plainEvent{})
	})
}

// c30trees lists the shapes of trees of n spans: the parent of every span but the first.
func c30trees(n int) (l [][]int) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			l = append(l, append([]int(nil), p...))
			return
		}
		for i := 0; i < len(p); i++ {
			rec(append(p, i))
		}
	}
	rec([]int{-1})
	return
}

// c30build makes a tree; ids are the span IDs.
func c30build(par []int, ids []uint64, anns func(i int) []appdash.Annotation) []*appdash.Trace {
	ns := make([]*appdash.Trace, len(par))
	for i, p := range par {
		n := &appdash.Trace{}
		n.Span.ID = hx.ID(1, ids[i], 0)
		n.Span.Annotations = anns(i)
		if p >= 0 {
			n.Span.ID.Parent = appdash.ID(ids[p])
			ns[p].Sub = append(ns[p].Sub, n)
		}
		ns[i] = n
	}
	return ns
}

// C30: looking inside a trace.
func init() {
	kit.Prop("C30", func(tier string) (us []*kit.Unit) {
		seq := mc.Options{NoPreempt: true}
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Opt: seq, Body: body})
		}
		max := 7
		if tier == "thorough" {
			max = 8
		}
		for n := 1; n <= max; n++ {
			n := n
			add(fmt.Sprintf("find/%d", n), fmt.Sprintf("all trees of %d spans with ascending, descending and extreme span IDs: every span ID, absent ones, the trace ID", n), func(t *mc.T) { c30find(t, n) })
		}
		for n := 1; n <= 5; n++ {
			n := n
			add(fmt.Sprintf("text/%d", n), fmt.Sprintf("the text of all trees of %d spans with 0-2 annotations each", n), func(t *mc.T) { c30text(t, n) })
		}
		for k := 0; k <= 3; k++ {
			k := k
			nt, firsts := 5, 1
			if k == 3 {
				nt, firsts = 3, 5
				if tier == "thorough" {
					nt = 4
				}
			}
			for f := 0; f < firsts; f++ {
				f := f
				add(fmt.Sprintf("times/%d/%d", k, f), fmt.Sprintf("all ordered choices of %d of 5 kinds of timed events (three: the first one fixed), start and end among %d times (also end before start, equal and in different zones), between events without times", k, nt), func(t *mc.T) { c30times(t, k, nt, f) })
			}
		}
		add("names", "a name annotation (5 values) at every place among up to 3 other annotations, or none; keys that look like it", c30name)
		add("important", "every key that a registered event type declares important, every key of every event of the library, and near misses of all of them", c30important)
		add("important/declared", "the HTTP and SQL events of the library: every key they declare important is one they write, and the status or the query is among them", c30declared)
		add("important/registered later", "all sequences of 5 (thorough: 6) operations: registering one of 3 event types, asking for one of their 4 keys, decoding a span that has an event of one of the types; what an event type says holds from its registration on", func(t *mc.T) {
			n := 5
			if tier == "thorough" {
				n = 6
			}
			c30later(t, n)
		})
		return
	})
}

func c30ids(t *mc.T, n int) []uint64 {
	ids := make([]uint64, n)
	switch t.Choose(3, "ids") {
	case 0:
		for i := range ids {
			ids[i] = uint64(i + 1)
		}
	case 1:
		for i := range ids {
			ids[i] = uint64(2*n - i)
		}
	case 2:
		for i := range ids {
			ids[i] = []uint64{0, 1 << 63, ^uint64(0), 1, 1 << 32, 77, 78, 79}[i]
		}
	}
	return ids
}

func c30find(t *mc.T, n int) {
	trees := c30trees(n)
	h := t.Choose((len(trees)+15)/16, "tree")*16 + t.Choose(16, "tree")
	if h >= len(trees) {
		return
	}
	ids := c30ids(t, n)
	ns := c30build(trees[h], ids, func(int) []appdash.Annotation { return nil })
	for i := range ns {
		for j, id := range ids {
			in := false
			for k := j; k >= 0; k = trees[h][k] {
				if k == i {
					in = true
				}
			}
			g := ns[i].FindSpan(appdash.ID(id))
			if in && g != ns[j] || !in && g != nil {
				t.Fail("tree %v: looking for span %x below span %x gives %p (the span is %p, below it: %v)", trees[h], id, ids[i], g, ns[j], in)
			}
		}
		for _, id := range []appdash.ID{12345, 1<<64 - 2, 2, 100} {
			known := false
			for _, x := range ids {
				known = known || uint64(id) == x
			}
			if g := ns[i].FindSpan(id); !known && g != nil {
				t.Fail("tree %v: looking for the absent span %x gives %v", trees[h], id, g.ID)
			}
		}
	}
}

func c30text(t *mc.T, n int) {
	trees := c30trees(n)
	par := trees[t.Choose(len(trees), "tree")]
	ids := c30ids(t, n)
	var anns [][]appdash.Annotation
	for i := 0; i < n; i++ {
		var as []appdash.Annotation
		for k := t.Choose(3, "annotations"); k > 0; k-- {
			as = append(as, hx.A(fmt.Sprintf("k%d", k), fmt.Sprintf("v%d", i)))
		}
		anns = append(anns, as)
	}
	ns := c30build(par, ids, func(i int) []appdash.Annotation { return anns[i] })
	var want []string
	var walk func(tr *appdash.Trace, depth int)
	walk = func(tr *appdash.Trace, depth int) {
		if depth == 0 {
			want = append(want, "Trace 1")
		} else {
			s := fmt.Sprintf("Span %x", uint64(tr.ID.Span))
			if tr.ID.Parent != 0 {
				s += fmt.Sprintf(" (parent %x)", uint64(tr.ID.Parent))
			}
			want = append(want, s)
		}
		for _, a := range tr.Annotations {
			want = append(want, a.Key+" = "+string(a.Value))
		}
		for _, s := range tr.Sub {
			walk(s, depth+1)
		}
	}
	walk(ns[0], 0)
	var got []string
	for _, l := range strings.Split(strings.TrimRight(ns[0].TreeString(), "\n"), "\n") {
		got = append(got, strings.TrimLeft(l, " |+-"))
	}
	if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
		t.Fail("the text of the tree %v is\n%s\nand must hold\n%s", par, ns[0].TreeString(), w)
	}
}

var c30base = time.Date(2020, 6, 7, 8, 9, 10, 111222333, time.UTC)

func c30time(i int) time.Time {
	x := c30base
	switch i {
	case 1:
		x = x.Add(1) // one nanosecond
	case 2:
		x = x.Add(-time.Hour).In(zone1)
	case 3:
		x = x.Add(36 * time.Hour)
	case 4:
		x = x.In(time.FixedZone("", 3600))
	}
	return x
}

func c30timed(k int, s, e time.Time) appdash.Event {
	switch k {
	case 0:
		return appdash.Timespan{S: s, E: e}
	case 1:
		return sqltrace.SQLEvent{SQL: "x", ClientSend: s, ClientRecv: e}
	case 2:
		return httptrace.ClientEvent{ClientSend: s, ClientRecv: e}
	default:
		return httptrace.ServerEvent{ServerRecv: s, ServerSend: e}
	}
}

func c30times(t *mc.T, k, nt, first int) {
	var as appdash.Annotations
	add := func(e appdash.Event) {
		a, err := appdash.MarshalEvent(e)
		must(t, err, "MarshalEvent")
		as = append(as, a...)
	}
	noise := 3
	if k < 3 {
		noise = t.Choose(4, "other events")
	}
	if noise&1 == 1 {
		add(appdash.SpanName("n"))
		add(plainEvent{c30base.Add(-time.Hour * 1000), c30base.Add(time.Hour * 1000)})
	}
	used := [5]bool{}
	var start, end time.Time
	for i := 0; i < k; i++ {
		kind := first
		if i > 0 || k < 3 {
			kind = t.Choose(5, "kind")
		}
		if used[kind] {
			return
		}
		used[kind] = true
		s, e := c30time(t.Choose(nt, "start")), c30time(t.Choose(nt, "end"))
		if kind == 4 { // the event of package appdash without a constructor
			as = append(as, hx.A("S", s.Format(time.RFC3339Nano)), hx.A("E", e.Format(time.RFC3339Nano)), hx.A("_schema:timespan", ""))
		} else {
			add(c30timed(kind, s, e))
		}
		if i == 0 || s.Before(start) {
			start = s
		}
		if i == 0 || e.After(end) {
			end = e
		}
	}
	if noise&2 == 2 {
		add(appdash.LogWithTimestamp("l", c30base.Add(-time.Hour*1000)))
		add(unknownEvent{"u"})
	}
	tr := &appdash.Trace{}
	tr.Span.ID = hx.ID(1, 2, 3)
	tr.Span.Annotations = as
	// the children's times do not count
	sub := &appdash.Trace{}
	sub.Span.ID = hx.ID(1, 3, 2)
	a, _ := appdash.MarshalEvent(appdash.Timespan{S: c30base.Add(-time.Hour * 99), E: c30base.Add(time.Hour * 99)})
	sub.Span.Annotations = a
	tr.Sub = []*appdash.Trace{sub}
	ev, err := tr.TimespanEvent()
	if k == 0 {
		if err == nil {
			t.Fail("no timed event, and the time span is %v - %v\n%s", ev.Start(), ev.End(), as)
		}
		return
	}
	must(t, err, "TimespanEvent")
	if !ev.Start().Equal(start) || !ev.End().Equal(end) {
		t.Fail("the time span is\n%v - %v, and must be\n%v - %v\n%s", ev.Start(), ev.End(), start, end, as)
	}
	if !reflect.DeepEqual(tr.Span.Annotations, as) {
		t.Fail("the annotations have changed")
	}
}

func c30name(t *mc.T) {
	others := []string{"name", "Name.", "Nam", "_schema:name", "", "Client.Request.Name"}
	var as appdash.Annotations
	n := t.Choose(4, "others")
	at := t.Choose(n+2, "position") - 1
	name := []string{"", "n", "日本", "a b\n", "Name"}[t.Choose(5, "name")]
	for i := 0; i <= n; i++ {
		if i == at {
			as = append(as, hx.A("Name", name))
		}
		if i < n {
			as = append(as, hx.A(others[t.Choose(len(others), "other")], "not the name"))
		}
	}
	s := &appdash.Span{ID: hx.ID(1, 2, 3), Annotations: as}
	want := name
	if at < 0 {
		want = ""
	}
	if g := s.Name(); g != want {
		t.Fail("the name is %q and must be %q\n%s", g, want, as)
	}
}

func c30important(t *mc.T) {
	want := map[string]bool{}
	var keys []string
	for _, e := range []appdash.Event{httptrace.ClientEvent{}, httptrace.ServerEvent{}, sqltrace.SQLEvent{}, importantEvent{}} {
		for _, k := range e.(appdash.ImportantEvent).Important() {
			want[k] = true
			keys = append(keys, k)
		}
	}
	for _, e := range c17events() {
		as, err := appdash.MarshalEvent(e)
		must(t, err, "MarshalEvent")
		for _, a := range as {
			keys = append(keys, a.Key)
		}
	}
	k := keys[t.Choose(len(keys), "key")]
	switch t.Choose(8, "change") {
	case 1:
		k += "."
	case 2:
		k += "x"
	case 3:
		k = strings.ToLower(k)
	case 4:
		k = strings.ToUpper(k)
	case 5:
		if len(k) > 0 {
			k = k[:len(k)-1]
		}
	case 6:
		if len(k) > 0 {
			k = k[1:]
		}
	case 7:
		k = " " + k
	}
	a := hx.A(k, "v")
	if g := a.Important(); g != want[k] {
		t.Fail("annotation %q: important %v, must be %v", k, g, want[k])
	}
}

// c30declared: what the events of the library declare important is what they write, and what they are about.
func c30declared(t *mc.T) {
	hs := map[string]string{"If-Modified-Since": "then", "If-None-Match": "etag"}
	e := []appdash.Event{httptrace.ClientEvent{Request: httptrace.RequestInfo{Headers: hs}}, httptrace.ServerEvent{Request: httptrace.RequestInfo{Headers: hs}}, sqltrace.SQLEvent{}}[t.Choose(3, "event")]
	as, err := appdash.MarshalEvent(e)
	must(t, err, "MarshalEvent")
	written := map[string]bool{}
	for _, a := range as {
		written[a.Key] = true
	}
	about := false
	for _, k := range e.(appdash.ImportantEvent).Important() {
		if !written[k] {
			t.Fail("events of schema %s declare %q important, and never write it:\n%s", e.Schema(), k, as)
		}
		about = about || strings.HasSuffix(k, "Response.StatusCode") || k == "SQL"
	}
	if !about {
		t.Fail("events of schema %s do not declare the status or the query important", e.Schema())
	}
}

// lateEvent1, lateEvent2 and lateEvent3 are registered in the course of an execution.
type (
	lateEvent1 struct{ A, B string }
	lateEvent2 struct{ A, C string }
	lateEvent3 struct{ D string }
)

func (lateEvent1) Schema() string      { return "late1" }
func (lateEvent1) Important() []string { return []string{"A", "B"} }
func (lateEvent2) Schema() string      { return "late2" }
func (lateEvent2) Important() []string { return []string{"A", "C"} }
func (lateEvent3) Schema() string      { return "late3" }

func c30later(t *mc.T, n int) {
	types := []appdash.Event{lateEvent1{"1", "2"}, lateEvent2{"3", "4"}, lateEvent3{"5"}}
	keys := []string{"A", "B", "C", "D"}
	known := map[string]bool{}
	reg := make([]bool, len(types))
	for i := 0; i < n; i++ {
		switch k := t.Choose(2*len(types)+len(keys), "operation"); {
		case k < len(types):
			if !reg[k] {
				appdash.RegisterEvent(types[k])
				reg[k] = true
				if e, ok := types[k].(appdash.ImportantEvent); ok {
					for _, key := range e.Important() {
						known[key] = true
					}
				}
			}
		case k < 2*len(types):
			k -= len(types)
			as, err := appdash.MarshalEvent(types[k])
			must(t, err, "MarshalEvent")
			var es []appdash.Event
			must(t, appdash.UnmarshalEvents(as, &es), "UnmarshalEvents")
			if reg[k] && (len(es) != 1 || es[0] != types[k]) || !reg[k] && len(es) > 0 {
				t.Fail("event %#v (registered: %v) is decoded as %#v", types[k], reg[k], es)
			}
		default:
			key := keys[k-2*len(types)]
			if g := hx.A(key, "v").Important(); g != known[key] {
				t.Fail("annotation %q: important %v, must be %v; registered: %v", key, g, known[key], reg)
			}
		}
	}
}
