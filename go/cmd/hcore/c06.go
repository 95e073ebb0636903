package main

import (
	"errors"
	"fmt"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C06: eviction by age.
func init() {
	kit.Prop("C06", func(tier string) (us []*kit.Unit) {
		depth := 5
		if tier == "thorough" {
			depth = 6
		}
		for f := 0; f < 3; f++ {
			for d := range c06steps {
				f, d, depth := f, d, depth
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("sequences/second=%d/after=%d", f, d),
					Rule: fmt.Sprintf("all sequences of %d collections for 3 traces with waits of %v between them (second collection fixed)", depth, c06steps),
					Body: func(t *mc.T) { c06seq(t, f, d, depth) },
				})
			}
		}
		add := func(name string, threads []int, bound int) {
			for d := 0; d < 2; d++ {
				d := d
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("%s/%d", name, d),
					Rule: fmt.Sprintf("all schedules with <= %d preemptions of threads that make %v collections for old and new traces when an eviction is due (variant %d)", bound, threads, d),
					Opt:  mc.Options{Bound: bound, MapOrder: 2},
					Body: func(t *mc.T) { c06conc(t, threads, d) },
				})
			}
		}
		if tier == "quick" {
			add("concurrent/2x1", []int{1, 1}, 4)
			add("concurrent/2,1", []int{2, 1}, 5)
			add("concurrent/3x1", []int{1, 1, 1}, 3)
			add("concurrent/2,2", []int{2, 2}, 2)
		} else {
			add("concurrent/2,2", []int{2, 2}, 4)
			add("concurrent/3x1", []int{1, 1, 1}, 4)
			add("concurrent/2,1,1", []int{2, 1, 1}, 2)
		}
		us = append(us, &kit.Unit{
			Name: "race/2x1", Race: true,
			Rule: "all schedules with <= 2 preemptions of two collecting threads when an eviction is due, under the race detector",
			Opt:  mc.Options{Bound: 2},
			Body: func(t *mc.T) { c06conc(t, []int{1, 1}, 0) },
		}, &kit.Unit{
			Name: "failing delete",
			Rule: "a store that cannot delete: collections go on",
			Body: c06fail,
		}, &kit.Unit{
			Name: "failing collect",
			Rule: "all sequences of 4 collections for 2 traces, each failing in the underlying store or not, with waits between: Collect returns the error of the store, and evictions go on",
			Body: c06collect,
		})
		fd := 5
		if tier == "thorough" {
			fd = 6
		}
		for f := 0; f < 3; f++ {
			for d := 2; d < len(c06steps); d++ {
				f, d := f, d
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("faults/second=%d/after=%d", f, d),
					Rule: fmt.Sprintf("all sequences of %d collections for 3 traces with waits of %v between them (second collection fixed), <= 2 deletions of the underlying store failing", fd, c06steps),
					Body: func(t *mc.T) { c06run(t, f, d, fd, 2) },
				})
			}
		}
		return
	})
}

const c06age = 10 * time.Second

var c06steps = []time.Duration{0, c06age / 2, c06age, c06age + 1, 2 * c06age, 2*c06age + 1}

type c06span struct {
	id appdash.SpanID
	at time.Duration
	n  int
}

// c06look compares what is stored with what has been collected. strict: a collection happened just
// now (and all background work is done).
func c06look(t *mc.T, ms *appdash.MemoryStore, all []*c06span, now time.Duration, strict bool, failed map[appdash.ID]time.Duration) string {
	out := ""
	byTrace := map[appdash.ID][]*c06span{}
	for _, s := range all {
		byTrace[s.id.Trace] = append(byTrace[s.id.Trace], s)
	}
	for tr := appdash.ID(1); tr <= 4; tr++ {
		spans := byTrace[tr]
		have := map[appdash.ID]int{}
		got, err := ms.Trace(tr)
		if err == nil {
			nodes, msg := hx.Flatten(got)
			if msg != "" {
				t.Fail("%s", msg)
			}
			for _, n := range nodes {
				have[n.T.Span.ID.Span] = len(n.T.Span.Annotations)
			}
		}
		// The trace as it is now consists of the last spans, from some of them on.
		first := len(spans)
		for i, s := range spans {
			if have[s.id.Span] > 0 {
				first = i
				break
			}
		}
		for i, s := range spans {
			n, ok := have[s.id.Span]
			if ok != (i >= first) || ok && n != 1 {
				t.Fail("trace %d at %v: of the spans collected at %v those stored are %v: not all from one on", tr, now, c06times(spans), have)
			}
			delete(have, s.id.Span)
		}
		if len(have) > 0 {
			t.Fail("trace %d holds spans that were never collected: %v", tr, have)
		}
		// The incarnations before the stored one must have been old enough to be evicted, and the stored one must not be too old.
		// A new incarnation begins with a span whose predecessors are all gone, so split from the end.
		if first < len(spans) {
			f, bad := failed[tr]
			// (A deletion that failed is not tried again at once.)
			if strict && now-spans[first].at > 2*c06age && !(bad && now-f <= c06age) {
				t.Fail("trace %d was collected at %v, it is %v, something was collected just now, and it is still stored", tr, spans[first].at, now)
			}
		}
		out += fmt.Sprintf("%d:%d/%d ", tr, first, len(spans))
	}
	return out
}

func c06times(l []*c06span) (r []time.Duration) {
	for _, s := range l {
		r = append(r, s.at)
	}
	return
}

func c06new() (*appdash.RecentStore, *appdash.MemoryStore) {
	ms := appdash.NewMemoryStore()
	return &appdash.RecentStore{MinEvictAge: c06age, DeleteStore: ms}, ms
}

func c06seq(t *mc.T, second, after, depth int) { c06run(t, second, after, depth, 0) }

// c06faulty is a store in which deletions fail.
type c06faulty struct {
	*appdash.MemoryStore
	left   *int
	failed map[appdash.ID]time.Duration // time of the last deletion that failed
}

func (s c06faulty) Delete(ids ...appdash.ID) error {
	if *s.left > 0 && mc.Choose(2, "deletion fails") == 1 {
		*s.left--
		for _, id := range ids {
			s.failed[id] = mc.Elapsed()
		}
		return fmt.Errorf("cannot delete")
	}
	for _, id := range ids {
		delete(s.failed, id)
	}
	return s.MemoryStore.Delete(ids...)
}

func c06run(t *mc.T, second, after, depth, faults int) {
	rs, ms := c06new()
	failed := map[appdash.ID]time.Duration{}
	rs.DeleteStore = c06faulty{ms, &faults, failed}
	var all []*c06span
	// cur is the current incarnation of every trace: the spans since its first collection.
	cur := map[appdash.ID][]*c06span{}
	now := mc.Elapsed()
	for i := 0; i < depth; i++ {
		tr, d := 0, 0
		switch i {
		case 0:
		case 1:
			tr, d = second, after
		default:
			d = t.Choose(len(c06steps), "wait")
			tr = t.Choose(3, "trace")
		}
		mc.SleepIdle(c06steps[d])
		now += c06steps[d]
		if i > 0 {
			c06check(t, ms, cur, all, now, false, failed)
		}
		s := &c06span{id: hx.ID(uint64(tr+1), uint64(100+i), 0), at: now, n: i}
		must(t, rs.Collect(s.id, hx.A("n", fmt.Sprint(i))), "Collect")
		mc.AfterIdle()
		all = append(all, s)
		cur[s.id.Trace] = append(cur[s.id.Trace], s)
		if tr, err := ms.Trace(s.id.Trace); err != nil || tr.FindSpan(s.id.Span) == nil {
			t.Fail("span %v collected just now, at %v, is not stored", s.id, now)
		}
		mc.State(fmt.Sprint(c06check(t, ms, cur, all, now, true, failed), now))
	}
	// In the end nothing stays for ever.
	faults = 0
	for i := 0; i < 2; i++ {
		mc.SleepIdle(2*c06age + 1)
		must(t, rs.Collect(hx.ID(4, uint64(1+i), 0), hx.A("n", "")), "Collect")
		mc.AfterIdle()
	}
	for tr := appdash.ID(1); tr <= 3; tr++ {
		if _, err := ms.Trace(tr); err != appdash.ErrTraceNotFound {
			t.Fail("trace %d escapes eviction", tr)
		}
	}
}

// c06check follows the incarnations of the traces.
func c06check(t *mc.T, ms *appdash.MemoryStore, cur map[appdash.ID][]*c06span, all []*c06span, now time.Duration, collected bool, failed map[appdash.ID]time.Duration) string {
	st := c06look(t, ms, all, now, collected, failed)
	for tr := appdash.ID(1); tr <= 3; tr++ {
		l := cur[tr]
		if len(l) == 0 {
			continue
		}
		got, err := ms.Trace(tr)
		n := 0
		if err == nil {
			nodes, _ := hx.Flatten(got)
			n = len(nodes)
		}
		if n > len(l) {
			t.Fail("trace %d holds %d spans, its incarnation has %d", tr, n, len(l))
		}
		if n == len(l) {
			continue
		}
		// evicted; what is left is a new incarnation
		gone := l[:len(l)-n]
		if age := now - gone[0].at; age <= c06age {
			t.Fail("trace %d first collected at %v is evicted at %v, its age is only %v", tr, gone[0].at, now, age)
		}
		cur[tr] = l[len(l)-n:]
		if n > 0 && cur[tr][0].at != now {
			t.Fail("trace %d has lost only a part of its spans: %v are left of %v", tr, c06times(cur[tr]), c06times(l))
		}
	}
	return st
}

func c06conc(t *mc.T, threads []int, variant int) {
	rs, ms := c06new()
	// Trace 1 is old, trace 2 exactly A old when the threads run; an eviction is due.
	first := hx.ID(1, 1, 0)
	must(t, rs.Collect(first, hx.A("n", "0")), "Collect")
	mc.SleepIdle(c06age + 1 + time.Duration(variant)*c06age)
	must(t, rs.DeleteStore.(*appdash.MemoryStore).Collect(hx.ID(9, 1, 0)), "Collect") // not ours: stays
	now := mc.Elapsed()
	type op struct {
		id  appdash.SpanID
		err error
	}
	ops := make([][]*op, len(threads))
	n := uint64(10)
	for i, k := range threads {
		for j := 0; j < k; j++ {
			ops[i] = append(ops[i], &op{id: hx.ID(uint64(1+t.Choose(2, "trace")), n, 0)})
			n++
		}
	}
	var ts []*mc.T
	for i := range threads {
		i := i
		ts = append(ts, t.Go(fmt.Sprint("client", i), func() {
			for _, o := range ops[i] {
				o.err = rs.Collect(o.id, hx.A("n", "1"))
			}
		}))
	}
	t.Join(ts...)
	mc.AfterIdle()
	mc.Calm()
	stored := func(id appdash.SpanID) int {
		tr, err := ms.Trace(id.Trace)
		if err != nil {
			return 0
		}
		nodes, msg := hx.Flatten(tr)
		if msg != "" {
			t.Fail("%s", msg)
		}
		c := 0
		for _, n := range nodes {
			if n.T.Span.ID.Span == id.Span {
				c += len(n.T.Span.Annotations)
			}
		}
		return c
	}
	st := ""
	oldGone := stored(first) == 0
	if !oldGone && variant == 1 {
		t.Fail("a span of age %v is still stored after collections for other traces", now)
	}
	for i := range ops {
		for _, o := range ops[i] {
			must(t, o.err, "Collect")
			k := stored(o.id)
			if k != 1 {
				t.Fail("span %v collected just now is stored %d times", o.id, k)
			}
			st += fmt.Sprint(o.id, k, " ")
		}
	}
	mc.State(fmt.Sprint(st, oldGone))
	// Whatever has survived goes away in time.
	for i := 0; i < 2; i++ {
		mc.SleepIdle(2*c06age + 1)
		must(t, rs.Collect(hx.ID(4, uint64(1+i), 0), hx.A("n", "")), "Collect")
		mc.AfterIdle()
	}
	for tr := appdash.ID(1); tr <= 2; tr++ {
		if _, err := ms.Trace(tr); err != appdash.ErrTraceNotFound {
			t.Fail("trace %d escapes eviction", tr)
		}
	}
}

type c06store struct{ *appdash.MemoryStore }

func (c06store) Delete(...appdash.ID) error { return fmt.Errorf("cannot delete") }

func c06fail(t *mc.T) {
	ms := appdash.NewMemoryStore()
	rs := &appdash.RecentStore{MinEvictAge: c06age, DeleteStore: c06store{ms}}
	for i := 0; i < 4; i++ {
		mc.SleepIdle(c06steps[t.Choose(len(c06steps), "wait")])
		id := hx.ID(uint64(1+t.Choose(2, "trace")), uint64(10+i), 0)
		must(t, rs.Collect(id, hx.A("n", "1")), "Collect")
		mc.AfterIdle()
		tr, err := ms.Trace(id.Trace)
		must(t, err, "Trace")
		if tr.FindSpan(id.Span) == nil {
			t.Fail("span lost")
		}
	}
}

type c06nocollect struct {
	*appdash.MemoryStore
	bad *bool
}

var errC06 = fmt.Errorf("cannot collect")

func (s c06nocollect) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if *s.bad {
		return errC06
	}
	return s.MemoryStore.Collect(id, as...)
}

func c06collect(t *mc.T) {
	ms := appdash.NewMemoryStore()
	bad := false
	rs := &appdash.RecentStore{MinEvictAge: c06age, DeleteStore: c06nocollect{ms, &bad}}
	for i := 0; i < 4; i++ {
		if i > 0 {
			mc.SleepIdle(c06steps[t.Choose(len(c06steps), "wait")])
		}
		id := hx.ID(uint64(1+t.Choose(2, "trace")), uint64(10+i), 0)
		bad = t.Choose(2, "collection fails") == 1
		err := rs.Collect(id, hx.A("n", "1"))
		if bad && !errors.Is(err, errC06) {
			t.Fail("the underlying store gives %v, Collect returns %v", errC06, err)
		}
		if !bad && err != nil {
			t.Fail("Collect: %v", err)
		}
		mc.AfterIdle()
		tr, err := ms.Trace(id.Trace)
		if stored := err == nil && tr.FindSpan(id.Span) != nil; stored == bad {
			t.Fail("collection fails: %v, and the span is stored: %v", bad, stored)
		}
	}
	bad = false
	for i := 0; i < 2; i++ {
		mc.SleepIdle(2*c06age + 1)
		must(t, rs.Collect(hx.ID(4, uint64(1+i), 0), hx.A("n", "")), "Collect")
		mc.AfterIdle()
	}
	for tr := appdash.ID(1); tr <= 2; tr++ {
		if _, err := ms.Trace(tr); err != appdash.ErrTraceNotFound {
			t.Fail("trace %d escapes eviction", tr)
		}
	}
}
