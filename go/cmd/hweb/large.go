package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

func init() {
	kit.Large("C26", "traces", "profiles of traces of %d spans in 5 shapes; aggregates of 120 traces with 8 names and selections of most of them", 150, 500, c26large)
	kit.Large("C27", "traces", "traces of %d spans in 5 shapes and 5 orders, by 5 ways of exporting; an upload of 150 traces, of which every fifth is stored", 120, 400, c27large)
	kit.Large("C31", "pages", "lists of %d traces and of up to 300 chosen ones; traces of 60 spans, annotations of 100 kB, a span with 500 annotations; a thousand requests, between them errors", 400, 1500, c31large)
	kit.Large("C34", "spans", "timelines of traces of %d spans in 5 shapes", 200, 600, c34large)
}

func c26large(t *mc.T, n int) {
	in := newInst(t)
	if k := t.Choose(6, "shape"); k < 5 {
		var ps []*pspan
		at := map[appdash.ID]int{}
		l := hx.Large(3, k, n)
		for i, id := range l {
			p := &pspan{id: id, par: -1, name: fmt.Sprint("span ", i%7)}
			p.label = p.name
			if q, ok := at[id.Parent]; ok && i > 0 {
				p.par = q
			}
			at[id.Span] = i
			tm := timings[i%len(timings)]
			p.ms = tm.figure
			ps = append(ps, p)
			in.collect(id, append(event(t, appdash.SpanName(p.name)), tm.anns(t)...)...)
		}
		for i := 0; i < n; i += 1 + n/15 {
			u, err := in.app.URLToTraceSpanProfile(3, ps[i].id.Span)
			if err != nil {
				t.Fail("URL of the profile: %v", err)
			}
			c26compare(t, in, u.String(), ps[i].id.Span, ps)
		}
		u, _ := in.app.URLToTraceProfile(3)
		c26compare(t, in, u.String(), ps[0].id.Span, ps)
		in.check("after the profile requests")
		mc.State(fmt.Sprint(k))
		return
	}
	var all [][]*pspan
	for i := 0; i < 120; i++ {
		var ps []*pspan
		for j := 0; j <= i%6; j++ {
			p := &pspan{id: hx.ID(uint64(100+i), uint64(1000*i+j+1), 0), par: j - 1, name: fmt.Sprint("name ", (i+j)%8)}
			p.label = p.name
			if j > 0 {
				p.id.Parent = ps[j/2].id.Span
			}
			tm := timings[(i*3+j)%len(timings)]
			p.ms = tm.figure
			ps = append(ps, p)
			in.collect(p.id, append(event(t, appdash.SpanName(p.name)), tm.anns(t)...)...)
		}
		all = append(all, ps)
	}
	for _, md := range modes {
		for _, sel := range []int{0, 1, 2, 3} {
			q, ts := "?view-mode="+md.q, all
			if sel > 0 {
				ts = nil
				var s []string
				for i := range all {
					if i%sel == 0 {
						ts = append(ts, all[i])
						s = append(s, all[i][0].id.Trace.String())
					}
				}
				q += "&selection=" + strings.Join(s, ",")
			}
			sameAgg(t, fmt.Sprintf("%d traces, mode %s, %d selected", len(all), md.q, len(ts)), aggregated(t, in, q), aggOf(md.mode, ts))
		}
	}
	in.check("after the aggregates")
	mc.State("aggregates")
}

func c27large(t *mc.T, n int) {
	shape := t.Choose(hx.Shapes, "shape")
	if shape == 5 { // many at once
		dst := newInst(t)
		var l []*appdash.Trace
		for i := 0; i < 150; i++ {
			x := tr(hx.ID(uint64(i+2), 0x20, 0), []appdash.Annotation{hx.A("Name", fmt.Sprint("trace ", i))})
			for j := 0; j < i%7; j++ {
				x.Sub = append(x.Sub, tr(hx.ID(uint64(i+2), uint64(0x30+j), 0x20), []appdash.Annotation{hx.A("k", strings.Repeat("v", i*j))}))
			}
			l = append(l, x)
			if i%5 == 0 {
				dst.collect(hx.ID(uint64(i+2), 0x77, 0), hx.A("Name", "prior"))
			}
		}
		for round := 0; round < 2; round++ {
			if msg := dst.imp(jsonOf(t, l...), false); msg != "" {
				t.Fail("upload of %d traces: %s", len(l), msg)
			}
			for _, x := range l {
				if dst.m.T[x.Span.ID.Trace] == nil {
					for _, s := range append([]*appdash.Trace{x}, x.Sub...) {
						dst.m.Collect(s.Span.ID, s.Span.Annotations...)
					}
				}
			}
			dst.check("after the upload")
		}
		mc.State("many")
		return
	}
	src := newInst(t)
	order := t.Choose(hx.Orders, "order")
	for i, id := range hx.Order(order, hx.Large(0xabc, shape, n)) {
		src.collect(id, hx.A("Name", fmt.Sprint("span ", i)), hx.A("k", strings.Repeat("v<\"\x00", i%50)))
	}
	src.collect(hx.ID(1, 1, 0), hx.A("Name", "a trace that is not exported"))
	roundtrip(t, src, order%4, (shape+order)%channels)
	mc.State(fmt.Sprint(shape, order))
}

func c31large(t *mc.T, n int) {
	in := newInst(t)
	switch t.Choose(4, "kind") {
	case 0: // lists
		var ids []string
		for i := 0; i < n; i++ {
			id := hx.ID(uint64(i+1)*0x9e3779b97f4a7c15, uint64(i+5), 0)
			in.collect(id, hx.A("Name", fmt.Sprint("trace ", i)))
			ids = append(ids, id.Trace.String())
		}
		for _, k := range []int{n, 1, 10, 50, 100, 101, 255, 256, 300} {
			u, want := "/traces", append([]string(nil), ids...)
			if k < n {
				want = nil
				for i := 0; i < k; i++ {
					want = append(want, ids[(i*7)%n])
				}
				u += "?show=" + strings.Join(want, ",")
			}
			m := map[string]bool{}
			for _, x := range want {
				m[x] = true
			}
			want = nil
			for x := range m {
				want = append(want, x)
			}
			sort.Strings(want)
			if got := listed(t, in, u); strings.Join(got, " ") != strings.Join(want, " ") {
				t.Fail("of %d traces %d were asked for, and %d are listed", n, len(want), len(got))
			}
		}
		in.page("/aggregate")
	case 1: // a trace with many spans
		for i, id := range hx.Large(7, 3, 60) {
			in.collect(id, hx.A("Name", fmt.Sprint("span ", i)), hx.A("other", fmt.Sprint(i)))
		}
		in.all(7)
	case 2: // large annotations
		var as []appdash.Annotation
		for i := 0; i < 500; i++ {
			as = append(as, hx.A(fmt.Sprint("key", i), fmt.Sprint("value ", i)))
		}
		in.collect(hx.ID(7, 1, 0), as...)
		in.collect(hx.ID(7, 2, 1), hx.A("long", strings.Repeat("<a>&", 25000)), hx.A("end", "e"))
		in.collect(hx.ID(7, 3, 2), hx.A(strings.Repeat("key", 5000), "v"))
		in.all(7)
	case 3: // many requests
		in.collect(hx.ID(7, 1, 0), append(tspan(t, at(0), at(time.Second)), hx.A("Name", "n"))...)
		in.collect(hx.ID(7, 2, 1), append(tspan(t, at(0), at(time.Millisecond)), hx.A("Name", "m"))...)
		us := []string{"/traces/7", "/traces", "/traces/7/2", "/aggregate", "/dashboard", "/traces/7/profile", "/traces/99", "/nothing", "/traces/xyz"}
		first := map[string]string{}
		for i := 0; i < 1000; i++ {
			u := us[i%len(us)]
			w := in.get(u)
			s := fmt.Sprint(w.Code, w.Body)
			if i < len(us) {
				first[u] = s
			} else if s != first[u] {
				t.Fail("request %d, GET %s: %.300s instead of %.300s", i, u, s, first[u])
			}
		}
		in.check("after a thousand requests")
		in.all(7)
	}
}

func c34large(t *mc.T, n int) {
	in := newInst(t)
	shape := t.Choose(5, "shape")
	l := hx.Large(0x77, shape, n)
	start := map[appdash.ID][2]int64{}
	anns := map[appdash.ID][]appdash.Annotation{}
	depth := map[appdash.ID]int{}
	for i, id := range l {
		from, to := at(time.Duration(i)*ms), at(time.Duration(3*i+1)*ms)
		as := append(event(t, appdash.SpanName(fmt.Sprint("span ", i))), event(t, appdash.Timespan{S: from, E: to})...)
		as = append(as, hx.A("extra", fmt.Sprint(i)))
		in.collect(id, as...)
		start[id.Span] = [2]int64{from.UnixNano() / 1e6, to.UnixNano() / 1e6}
		anns[id.Span] = as
		if i > 0 {
			depth[id.Span] = depth[id.Parent] + 1
		}
	}
	for _, top := range []int{0, n / 3} {
		u := "/traces/77"
		if top > 0 {
			u += "/" + l[top].Span.String()
		}
		page := in.page(u)
		m, s := reVis.FindStringSubmatch(page), reShow.FindStringSubmatch(page)
		if m == nil || s == nil || strings.TrimSpace(s[1]) != "true" {
			t.Fail("the page %s has no timeline", u)
		}
		var got []tlItem
		if err := json.Unmarshal([]byte(m[1]), &got); err != nil {
			t.Fail("timeline data: %v", err)
		}
		root, err := in.store.Trace(0x77)
		if err != nil {
			t.Fail("%v", err)
		}
		order := flatIDs(find(root, l[top].Span))
		if len(got) != len(order) {
			t.Fail("GET %s: the timeline shows %d spans instead of %d", u, len(got), len(order))
		}
		for i, g := range got {
			id := order[i]
			name := string(anns[id.Span][0].Value)
			if g.SpanID != id.Span.String() || g.Label != name || g.FullLabel != name || len(g.Times) != 1 || g.Times[0].Start != start[id.Span][0] || g.Times[0].End != start[id.Span][1] {
				t.Fail("GET %s: item %d of the timeline is %+v instead of span %v, %s, %v", u, i, g, id, name, start[id.Span])
			}
			if id.Parent != 0 && g.ParentSpanID != id.Parent.String() || g.Visible != (depth[id.Span]-depth[l[top].Span] <= 1) {
				t.Fail("GET %s: item %d of the timeline, span %v, is %+v", u, i, id, g)
			}
			if len(g.Data) != len(anns[id.Span]) || g.Data["extra"] != string(anns[id.Span][len(anns[id.Span])-1].Value) {
				t.Fail("GET %s: item %d of the timeline has data %v", u, i, g.Data)
			}
		}
	}
	mc.State(fmt.Sprint(shape))
}
