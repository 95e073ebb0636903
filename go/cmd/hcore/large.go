package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

func init() {
	kit.Large("C01", "trees", "traces of %d spans in 6 shapes (chain, star, binary tree, comb, two levels, half of the parents missing) and 5 orders of arrival; 30 traces at a time", 1000, 2500, c01large)
	kit.Large("C02", "spans", "%d collections for three spans by turns, through 5 kinds of collectors", 5000, 30000, c02large)
	kit.Large("C04", "stores", "a store of 100 small traces and one of %d spans of 6 shapes and 5 orders, loaded into fresh and used stores", 300, 1500, c04large)
	kit.Large("C05", "intervals", "%d intervals with changes, no changes, and changes that keep the size", 80, 160, c05large)
	kit.Large("C06", "traces", "%d traces, one in every tenth of a second, with further spans 3 s and 6 s later, age 10 s", 1500, 6000, c06large)
	kit.Large("C07", "traces", "limits 7, 64, 100 and 1000; %d traces, with further collections for traces that are held", 2500, 12000, c07large)
	kit.Large("C08", "queue", "%d collections for 700 spans, flushed by hand or by the timer after every few hundred", 3000, 20000, c08large)
	kit.Large("C09", "queue", "queues of %d collections up to the limit to the byte and over it, three times; flushes with hundreds of failures", 1000, 8000, c09large)
	kit.Large("C10", "intervals", "%d intervals with and without collections, then Stop", 300, 3000, c10large)
	kit.Large("C11", "packets", "%d packets of sizes up to 5 kB and up to 200 annotations on one connection, plain and TLS; one of 5000 annotations", 1500, 6000, c11large)
	kit.Large("C12", "breaks", "%d packets, the connection breaks after every third to ninth", 1000, 8000, c12large)
	kit.Large("C13", "senders", "%d senders of 8 packets each, on one connection or each on its own", 16, 60, c13large)
	kit.Large("C15", "recorder", "%d events on a recorder, as many children and as many errors", 2000, 8000, c15large)
	kit.Large("C25", "stores", "20 stores with %d traces among them, listed with filters of 0 to all IDs", 1500, 6000, c25large)
}

func c01large(t *mc.T, n int) {
	var ids []appdash.ID
	ms, m := appdash.NewMemoryStore(), hx.NewM()
	shape, order := t.Choose(hx.Shapes, "shape"), t.Choose(hx.Orders, "order")
	l := hx.Order(order, hx.Large(1, shape, n))
	small := map[int][]appdash.SpanID{}
	for k := 2; k < 32; k++ {
		small[k] = hx.Order(order, hx.Large(uint64(k), shape, 10))
		ids = append(ids, appdash.ID(k))
	}
	for i, id := range l {
		collect := func(id appdash.SpanID) {
			a := hx.A("k", fmt.Sprint(i))
			must(t, ms.Collect(id, a), "Collect")
			m.Collect(id, a)
		}
		collect(id)
		if i%37 == 36 {
			collect(l[i/2]) // again
		}
		if i < 10 {
			for k := 2; k < 32; k++ {
				collect(small[k][i])
			}
		}
		if i == n/2 || i == n-1 || i == 10 {
			if msg := hx.CheckStore(ms, m, append(ids, 1)...); msg != "" {
				t.Fail("shape %d, order %d, %d spans: %.2000s", shape, order, i+1, msg)
			}
		}
	}
	must(t, ms.Delete(ids[:20]...), "Delete")
	m.Delete(ids[:20]...)
	if msg := hx.CheckStore(ms, m, append(ids, 1)...); msg != "" {
		t.Fail("shape %d, order %d, after the deletion: %.2000s", shape, order, msg)
	}
	mc.State(fmt.Sprint(shape, order))
}

func c02large(t *mc.T, n int) {
	ms := appdash.NewMemoryStore()
	stores := []*appdash.MemoryStore{ms}
	var c appdash.Collector = ms
	flush := func() {}
	route := t.Choose(5, "kind of collector")
	switch route {
	case 1, 2:
		if route == 2 {
			stores = append(stores, appdash.NewMemoryStore())
			c = appdash.MultiStore(ms, stores[1])
		}
		cc := &appdash.ChunkedCollector{Collector: c, MinInterval: time.Hour}
		c = cc
		flush = func() { must(t, cc.Flush(), "Flush") }
	case 3:
		c = &appdash.LimitStore{Max: 5, DeleteStore: ms}
	case 4:
		c = &appdash.RecentStore{MinEvictAge: time.Hour, DeleteStore: ms}
	}
	m := hx.NewM()
	var as []appdash.Annotation
	for i := 0; i < n; i++ {
		as = as[:0] // the caller uses its slice again
		for j := 0; j < 1+i%3; j++ {
			as = append(as, hx.A("k"+fmt.Sprint(j), fmt.Sprint(i)))
		}
		id := c02spans[i%7%3]
		m.Collect(id, as...)
		must(t, c.Collect(id, as...), "Collect")
		if i%400 == 399 {
			flush()
		}
	}
	flush()
	for i, s := range stores {
		if msg := hx.CheckStore(s, m, 1, 2); msg != "" {
			t.Fail("collector %d, store %d: %.3000s", route, i, msg)
		}
	}
	mc.State(fmt.Sprint(route))
}

func c04large(t *mc.T, n int) {
	o, m := appdash.NewMemoryStore(), hx.NewM()
	shape, order := t.Choose(hx.Shapes, "shape"), t.Choose(hx.Orders, "order")
	l := hx.Order(order, hx.Large(1, shape, n))
	cut := n
	if t.Choose(2, "part of the trace comes after the load") == 1 {
		cut = n / 2
	}
	collect := func(id appdash.SpanID, ss ...*appdash.MemoryStore) {
		a := hx.A("k", fmt.Sprint(id, len(ss)))
		for _, s := range ss {
			must(t, s.Collect(id, a), "Collect")
		}
		m.Collect(id, a)
	}
	for _, id := range l[:cut] {
		collect(id, o)
	}
	for k := 2; k < 102; k++ {
		collect(hx.ID(uint64(k), 5, 4), o)
		collect(hx.ID(uint64(k), 4, 0), o)
	}
	img := c04image(t, o)
	c := c04used(t, t.Choose(2, "used") == 1)
	k, err := c.ReadFrom(bytes.NewReader(img))
	must(t, err, "ReadFrom")
	if int(k) != len(m.T) {
		t.Fail("ReadFrom gives %d traces, the store has %d", k, len(m.T))
	}
	c04same(t, m, o, c)
	for _, id := range l[cut:] {
		collect(id, o, c)
	}
	for i := 0; i < cut; i += 1 + cut/20 {
		collect(l[i], o, c)
		collect(appdash.SpanID{Trace: 1, Span: l[i].Span + 1, Parent: l[i].Span}, o, c)
	}
	for k := 2; k < 102; k += 3 {
		must(t, o.Delete(appdash.ID(k)), "Delete")
		must(t, c.Delete(appdash.ID(k)), "Delete")
		m.Delete(appdash.ID(k))
		collect(hx.ID(uint64(k+1), 6, 5), o, c)
	}
	c04same(t, m, o, c)
}

func c05large(t *mc.T, n int) {
	ms, m := appdash.NewMemoryStore(), hx.NewM()
	var end error
	ended := false
	t.Go("persist", func() {
		end = appdash.PersistEvery(ms, c05int, c05file)
		ended = true
	})
	kind := t.Choose(3, "kind of changes")
	for i := 0; i < n; i++ {
		mc.SleepIdle(c05int / 2)
		k := (i * (kind + 1)) % 5
		if k > 0 {
			id := hx.ID(uint64(1+i%9), uint64(10+i/9), 10)
			if k == 2 { // an image of the same size
				must(t, ms.Delete(50), "Delete")
				m.Delete(50)
				id = hx.ID(50, 10, 0)
			}
			a := hx.A("n", fmt.Sprintf("%06d", i))
			must(t, ms.Collect(id, a), "Collect")
			m.Collect(id, a)
		}
		mc.SleepIdle(c05int / 2)
		mc.AfterIdle()
		if ended {
			t.Fail("saving has ended in interval %d: %v", i+1, end)
		}
		img, ok := mc.FSGet(c05file)
		if !ok {
			t.Fail("no store file after %d intervals", i+1)
		}
		l := appdash.NewMemoryStore()
		if _, err := l.ReadFrom(strings.NewReader(img)); err != nil {
			t.Fail("interval %d: the store file cannot be loaded: %v", i+1, err)
		}
		if msg := hx.CheckStore(l, m, 1, 50); msg != "" {
			t.Fail("interval %d: the store file holds another state: %.1000s", i+1, msg)
		}
	}
	mc.State(fmt.Sprint(kind))
}

func c06large(t *mc.T, n int) {
	rs, ms := c06new()
	step := c06age / 100
	first := map[int]int{}
	for i := 0; i < n; i++ {
		mc.SleepIdle(step)
		for _, k := range []int{i, i - 30, i - 60} {
			if k >= 0 {
				must(t, rs.Collect(hx.ID(uint64(1+k), uint64(1+i), 0), hx.A("n", "")), "Collect")
			}
		}
		first[i] = i
		mc.AfterIdle()
		if i%10 != 9 {
			continue
		}
		for k := 0; k <= i; k++ {
			age := time.Duration(i-k) * step
			spans := 0
			tr, err := ms.Trace(appdash.ID(1 + k))
			if err == nil {
				l, _ := hx.Flatten(tr)
				spans = len(l)
			}
			want := 1
			if i-k >= 30 {
				want++
			}
			if i-k >= 60 {
				want++
			}
			if age <= c06age && spans != want {
				t.Fail("a trace of %v has %d spans instead of %d", age, spans, want)
			}
			if age > 2*c06age && spans != 0 {
				t.Fail("a trace of %v still has %d spans", age, spans)
			}
		}
	}
}

func c07large(t *mc.T, n int) {
	max := []int{7, 64, 100, 1000}[t.Choose(4, "limit")]
	back := []int{1, max / 2, max - 1}[t.Choose(3, "further collections for a trace")]
	ms := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: max, DeleteStore: ms}
	l := &c07model{max: max, m: hx.NewM()}
	for i := 0; i < n; i++ {
		for _, k := range []int{i, i - back} {
			if k >= 0 {
				id := hx.ID(uint64(k+1)*0x9e3779b97f4a7c15, uint64(10+i-k), 0)
				l.collect(id, hx.A("n", fmt.Sprint(i)))
				must(t, ls.Collect(id, hx.A("n", fmt.Sprint(i))), "Collect")
			}
		}
		if i%199 == 198 || i == n-1 || i == max || i == max-1 {
			if msg := hx.CheckStore(ms, l.m); msg != "" {
				t.Fail("limit %d, after %d traces: %.500s", max, i+1, msg)
			}
		}
	}
}

func c08large(t *mc.T, n int) {
	ms, m := appdash.NewMemoryStore(), hx.NewM()
	cc := appdash.NewChunkedCollector(ms)
	cc.Log = nil
	byTimer := t.Choose(2, "by the timer") == 1
	every := []int{100, 256, 999}[t.Choose(3, "collections per flush")]
	for i := 0; i < n; i++ {
		k := i * 7 % 700
		id := hx.ID(uint64(1+k%5), uint64(100+k), uint64(99+k))
		var as []appdash.Annotation
		for j := 0; j < i%4; j++ {
			as = append(as, hx.A("k", fmt.Sprint(i, j)))
		}
		m.Collect(id, as...)
		must(t, cc.Collect(id, as...), "Collect")
		if i%every == every-1 || i == n-1 {
			if byTimer {
				mc.SleepIdle(cc.MinInterval)
				mc.AfterIdle()
			} else {
				must(t, cc.Flush(), "Flush")
			}
			if msg := hx.CheckStore(ms, m, 1, 2, 3, 4, 5); msg != "" {
				t.Fail("after %d collections: %.2000s", i+1, msg)
			}
		}
	}
	cc.Stop()
	mc.AfterIdle()
}

func c09large(t *mc.T, n int) {
	fails := 0
	got := 0
	cc := &appdash.ChunkedCollector{MinInterval: time.Hour, MaxQueueSize: uint64(100 * n)}
	cc.Collector = sink{outcome: func(id appdash.SpanID) (time.Duration, error) {
		got++
		if fails > 0 && got%2 == 1 {
			return 0, fmt.Errorf("failure %x;", uint64(id.Span))
		}
		return 0, nil
	}}
	spans := []int{1, 300, n}[t.Choose(3, "spans")]
	over := t.Choose(2, "over the limit by a byte") == 1
	if !over && spans > 1 {
		fails = 1
	}
	size := func(i int) int { return 76 } // with 24 for the collection
	for round := 0; round < 3; round++ {
		for i := 0; i < n; i++ {
			k := size(i)
			if over && i == n-1 {
				k++
			}
			err := cc.Collect(hx.ID(1, uint64(100+i%spans), 0), hx.A("k", strings.Repeat("v", k-1)))
			if over && i == n-1 {
				if err != appdash.ErrQueueDropped {
					t.Fail("the queue exceeds its limit by a byte, Collect gives %v", err)
				}
			} else if err != nil {
				t.Fail("collection %d of %d that fit gives %v", i+1, n, err)
			}
		}
		got = 0
		err := cc.Flush()
		want := spans
		if over {
			want = 0
		}
		if got != want {
			t.Fail("%d of %d spans were delivered", got, want)
		}
		if (err != nil) != (fails > 0) {
			t.Fail("Flush gives %v", err)
		}
		if fails > 0 {
			// Every second delivery has failed.
			if c := strings.Count(err.Error(), ";"); c != (spans+1)/2 {
				t.Fail("Flush reports %d failures out of %d", c, (spans+1)/2)
			}
		}
	}
}

func c10large(t *mc.T, n int) {
	ms, m := appdash.NewMemoryStore(), hx.NewM()
	cc := &appdash.ChunkedCollector{Collector: ms, MinInterval: time.Second}
	live := mc.LiveThreads()
	kind := t.Choose(3, "kind of run")
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 1 && i%2 == 0 || kind == 2 && i < 3 {
			id := hx.ID(1, uint64(10+i), 0)
			must(t, cc.Collect(id, hx.A("n", fmt.Sprint(i))), "Collect")
			m.Collect(id, hx.A("n", fmt.Sprint(i)))
		}
		mc.SleepIdle(cc.MinInterval)
		mc.AfterIdle()
	}
	if msg := hx.CheckStore(ms, m, 1); msg != "" {
		t.Fail("before Stop: %.1000s", msg)
	}
	for i := 0; i < 3; i++ {
		cc.Stop()
		for j := 0; j < n/3; j++ {
			if err := cc.Collect(hx.ID(1, 5, 0), hx.A("late", "")); err == nil {
				t.Fail("a collection after Stop is accepted")
			}
		}
		mc.SleepIdle(5 * cc.MinInterval)
		mc.AfterIdle()
	}
	if k := mc.LiveThreads(); k != live {
		t.Fail("%d goroutines are left behind", k-live)
	}
	if msg := hx.CheckStore(ms, m, 1); msg != "" {
		t.Fail("after Stop: %.1000s", msg)
	}
}

func c11large(t *mc.T, n int) {
	useTLS := t.Choose(2, "TLS") == 1
	c11server(t, rsink{}, useTLS, false)
	rc := c11client(useTLS)
	var want []*recv
	send := func(i, anns, size int) {
		id := hx.ID(uint64(1+i%5), uint64(100+i), uint64(i/2))
		var as []appdash.Annotation
		for j := 0; j < anns; j++ {
			as = append(as, hx.A(fmt.Sprint("k", j), strings.Repeat(string([]byte{byte(i + j)}), size)))
		}
		want = append(want, recvOf(id, as))
		must(t, rc.Collect(id, as...), "Collect")
	}
	for i := 0; i < n; i++ {
		send(i, i%7, i*13%1700)
		if i%50 == 49 {
			send(i, 200, 10)
			mc.AfterIdle()
		}
	}
	send(n, 5000, 20)
	c11expect(t, want)
	if d := mc.NetDials(); d != 1 {
		t.Fail("the collector has dialled %d times", d)
	}
}

func c12large(t *mc.T, n int) {
	useTLS := t.Choose(2, "TLS") == 1
	every := 3 + 3*t.Choose(3, "break after")
	c11server(t, rsink{}, useTLS, false)
	rc := c11client(useTLS)
	var want []*recv
	for i := 0; i < n; i++ {
		if i%every == every-1 {
			for c := 0; c < mc.NetConns(); c++ {
				mc.NetBreak(c)
			}
			mc.AfterIdle()
		}
		id, as := c12packet(1+i%2, i)
		want = append(want, recvOf(id, as))
		if err := rc.Collect(id, as...); err != nil {
			t.Fail("packet %d: %v; the connection has broken before, the server is there", i+1, err)
		}
		mc.AfterIdle()
	}
	c11expect(t, want)
}

func c13large(t *mc.T, n int) {
	threads := make([]int, n)
	for i := range threads {
		threads[i] = 8
	}
	useTLS := t.Choose(2, "TLS") == 1
	switch t.Choose(3, "how") {
	case 0:
		c13shared(t, threads, 0, false, useTLS)
	case 1:
		c13shared(t, threads, 3, false, useTLS)
	case 2:
		c13clients(t, threads, false, useTLS)
	}
}

type c15count struct{ fail bool }

func (c c15count) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	r := &c15call{id: id, anns: hx.Anns(as), raw: as}
	if c.fail {
		r.err = fmt.Errorf("failure %d", len(mc.Records()))
	}
	mc.Rec(r)
	return r.err
}

func c15large(t *mc.T, n int) {
	id := hx.ID(1, 2, 3)
	switch t.Choose(3, "what") {
	case 0: // events
		rec := appdash.NewRecorder(id, c15count{})
		var want []appdash.Annotation
		for i := 0; i < n; i++ {
			e := appdash.Msg(fmt.Sprint("message ", i))
			if i%3 == 1 {
				e = structEvent{A: fmt.Sprint(i)}
			}
			as, err := appdash.MarshalEvent(e)
			must(t, err, "MarshalEvent")
			want = append(want, as...)
			rec.Event(e)
		}
		if k := len(mc.Records()); k != 0 {
			t.Fail("%d collections before Finish", k)
		}
		rec.Finish()
		l := c15calls()
		if len(l) != 1 || l[0].id != id || l[0].anns != hx.Anns(want) {
			t.Fail("%d collections for %d events; the first %.1000s", len(l), n, l[0].anns)
		}
	case 1: // children
		rec := appdash.NewRecorder(id, c15count{})
		used := map[appdash.ID]bool{2: true}
		cur := rec
		for i := 0; i < n; i++ {
			from := rec
			if i%2 == 1 {
				from = cur
			}
			c := from.Child()
			if c.SpanID.Trace != 1 || c.SpanID.Parent != from.SpanID.Span || used[c.SpanID.Span] {
				t.Fail("child %d of %v is %v", i, from.SpanID, c.SpanID)
			}
			used[c.SpanID.Span] = true
			c.Msg(fmt.Sprint(i))
			c.Finish()
			l := c15calls()
			if len(l) != i+1 || l[i].id != c.SpanID || !strings.Contains(l[i].anns, fmt.Sprintf("\"Msg\"=%q", fmt.Sprint(i))) || strings.Count(l[i].anns, "Msg") != 1 {
				t.Fail("child %d: %d collections, the last for %v: %s", i, len(l), l[len(l)-1].id, l[len(l)-1].anns)
			}
			cur = c
		}
		if es := rec.Errors(); len(es) != 0 {
			t.Fail("errors %v", es)
		}
	case 2: // errors
		rec := appdash.NewRecorder(id, c15count{fail: true})
		per := 1 + 40*t.Choose(3, "errors between calls of Errors")
		var want, got []string
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				k := len(mc.Records())
				rec.Annotation(hx.A("k", "v"))
				want = append(want, mc.Records()[k].(*c15call).err.Error())
			} else {
				e := errors.New(fmt.Sprint("bad event ", i))
				rec.Event(badEvent{e})
				want = append(want, e.Error())
			}
			if i%per == 0 || i == n-1 {
				for _, e := range rec.Errors() {
					got = append(got, e.Error())
				}
			}
		}
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
			t.Fail("of %d errors %d are returned", len(want), len(got))
		}
	}
}

func c25large(t *mc.T, n int) {
	const k = 20
	var ss []appdash.Store
	var qs []appdash.Queryer
	m := hx.NewM()
	first := map[appdash.ID]int{}
	overlap := 1 + t.Choose(3, "stores that have a trace")
	for i := 0; i < k; i++ {
		ms := appdash.NewMemoryStore()
		for j := 0; j < n; j++ {
			if d := (i - j%k + k) % k; d < overlap {
				id := hx.ID(uint64(1+j), 1, 0)
				a := hx.A("store", fmt.Sprint(i))
				must(t, ms.Collect(id, a), "Collect")
				if _, ok := first[id.Trace]; !ok {
					first[id.Trace] = i
					m.Collect(id, a)
				}
			}
		}
		ss, qs = append(ss, ms), append(qs, ms)
	}
	st, q := appdash.MultiStore(ss...), appdash.MultiQueryer(qs...)
	for _, f := range []int{0, 1, 2, n / 3, n} {
		var opts appdash.TracesOpts
		w := hx.NewM()
		for j := 0; j < f; j++ {
			id := appdash.ID(1 + (j*7)%(n+5)) // some are unknown
			opts.TraceIDs = append(opts.TraceIDs, id)
			if tr := m.T[id]; tr != nil {
				w.T[id] = tr
			}
		}
		if f == 0 {
			w = m
		}
		ts, err := q.Traces(opts)
		must(t, err, "Traces")
		if msg := hx.CheckList(ts, w); msg != "" {
			t.Fail("a filter of %d IDs: %.500s", f, msg)
		}
	}
	for j := 0; j < n; j += 7 {
		if msg := hx.CheckOne(st.Trace, m, appdash.ID(1+j)); msg != "" {
			t.Fail("%s", msg)
		}
	}
	must(t, st.Collect(hx.ID(9999, 1, 0), hx.A("all", "")), "Collect")
	for i, s := range ss {
		if _, err := s.Trace(9999); err != nil {
			t.Fail("store %d has not got what was collected: %v", i, err)
		}
	}
}
