package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// delivery is a call of the collector under a chunking collector.
type delivery struct {
	id    appdash.SpanID
	anns  []string // values
	start int      // stamp
	at    time.Duration
	err   string
}

// sink is that collector. It shares no memory between calls.
type sink struct {
	outcome func(id appdash.SpanID) (slow time.Duration, err error) // nil: immediate success
	points  bool                                                    // other threads may run during the call
}

func (s sink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	d := &delivery{id: id, start: mc.Stamp(), at: mc.Elapsed()}
	for _, a := range as {
		d.anns = append(d.anns, a.Key+"="+string(a.Value))
	}
	var err error
	var slow time.Duration
	if s.outcome != nil {
		slow, err = s.outcome(id)
	}
	if err != nil {
		d.err = err.Error()
	}
	mc.Rec(d)
	if slow > 0 {
		mc.Sleep(slow)
	} else if s.points {
		mc.Point("deliver")
	}
	return err
}

// deliveries lists the calls so far.
func deliveries() (l []*delivery) {
	for _, r := range mc.Records() {
		if d, ok := r.(*delivery); ok {
			l = append(l, d)
		}
	}
	return
}

// coll is one collection through a chunking collector.
type coll struct {
	who, n    int
	id        appdash.SpanID
	anns      []appdash.Annotation
	call, ret int
	err       error
}

func (c *coll) size() int {
	n := 24
	for _, a := range c.anns {
		n += len(a.Key) + len(a.Value)
	}
	return n
}

func (c *coll) vals() (l []string) {
	for _, a := range c.anns {
		l = append(l, a.Key+"="+string(a.Value))
	}
	return
}

func (c *coll) do(cc *appdash.ChunkedCollector) {
	c.call = mc.Stamp()
	c.err = cc.Collect(c.id, c.anns...)
	c.ret = mc.Stamp()
}

// exactlyOnce compares accepted collections with deliveries; complete: everything must have been delivered.
func exactlyOnce(cs []*coll, ds []*delivery, complete bool) string {
	owner := map[string]*coll{}
	for _, c := range cs {
		for _, v := range c.vals() {
			owner[v] = c
		}
	}
	got := map[string]int{}
	for _, d := range ds {
		for i, v := range d.anns {
			c := owner[v]
			if c == nil || c.id != d.id {
				return fmt.Sprintf("annotation %q delivered under span %v, it was not collected there", v, d.id)
			}
			if c.err != nil {
				return fmt.Sprintf("annotation %q was refused (%v), but it is delivered", v, c.err)
			}
			if c.call >= d.start {
				return fmt.Sprintf("annotation %q delivered before it was collected", v)
			}
			got[v]++
			for _, u := range d.anns[:i] {
				o := owner[u]
				if o != c && o.call > c.ret {
					return fmt.Sprintf("delivered together out of order: %v", d.anns)
				}
				if o == c && strings.Compare(u, v) >= 0 {
					return fmt.Sprintf("the annotations of one collection are delivered out of order: %v", d.anns)
				}
			}
		}
	}
	for _, c := range cs {
		if c.err != nil {
			continue
		}
		for _, v := range c.vals() {
			if got[v] > 1 {
				return fmt.Sprintf("annotation %q delivered %d times", v, got[v])
			}
			if complete && got[v] == 0 {
				return fmt.Sprintf("annotation %q was accepted and never delivered", v)
			}
		}
		if complete && len(c.anns) == 0 {
			ok := false
			for _, d := range ds {
				ok = ok || d.id == c.id && d.start > c.call
			}
			if !ok {
				return fmt.Sprintf("span %v was collected without annotations and never delivered", c.id)
			}
		}
	}
	return ""
}

func deliveryState(ds []*delivery) string {
	s := ""
	for _, d := range ds {
		s += fmt.Sprintf("%v%v%s;", d.id, d.anns, d.err)
	}
	return s
}

var c08spans = []appdash.SpanID{hx.ID(1, 10, 0), hx.ID(1, 11, 10)}

// c08coll builds collection k of thread who: two spans, 0-2 annotations.
func c08coll(who, n, k int) *coll {
	c := &coll{who: who, n: n, id: c08spans[k/3]}
	for j := 0; j < k%3; j++ {
		c.anns = append(c.anns, hx.A("k", fmt.Sprintf("%d.%d.%d", who, n, j)))
	}
	return c
}

const c08kinds = 6

// C08: everything is delivered exactly once under every schedule.
func init() {
	kit.Prop("C08", func(tier string) (us []*kit.Unit) {
		add := func(name string, threads []int, flushes, bound int, race, timers bool, kinds []int) {
			us = append(us, &kit.Unit{
				Name: name, Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions or early timers (also: other choices of the next thread, in units named delay) of threads that make %v collections (kinds %v: two spans, 0-2 annotations) and %d flushes, timer of the collector: %v", bound, threads, kinds, flushes, timers),
				Opt:  mc.Options{Bound: bound, Timers: timers, MapOrder: 2, Delay: strings.HasPrefix(name, "delay")},
				Body: func(t *mc.T) { c08(t, threads, flushes, kinds) },
			})
		}
		few := []int{0, 2, 4}
		if tier == "quick" {
			add("race/2x1+flush", []int{1, 1}, 1, 1, true, true, few)
			add("race/2+flush", []int{2}, 1, 2, true, true, few)
			add("2x1+flush", []int{1, 1}, 1, 2, false, true, []int{0, 2, 4})
			add("2+flush", []int{2}, 1, 3, false, true, few)
			add("2x1+2flush", []int{1, 1}, 2, 1, false, true, few)
			add("delay/2x1+2flush", []int{1, 1}, 2, 3, false, true, few)
			add("delay/2,1+flush", []int{2, 1}, 1, 3, false, true, []int{0, 2})
			add("2,1", []int{2, 1}, 0, 3, false, true, []int{0, 2})
			add("1+2flush", []int{1}, 2, 3, false, true, few)
		} else {
			add("race/2x1+flush", []int{1, 1}, 1, 3, true, true, few)
			add("race/2,1+flush", []int{2, 1}, 1, 2, true, true, few)
			add("race/1+2flush", []int{1}, 2, 4, true, true, few)
			for k := 0; k < c08kinds; k++ {
				add(fmt.Sprintf("2x1+flush/%d", k), []int{1, 1}, 1, 4, false, true, []int{k, 0, 2, 4})
			}
			add("2+flush", []int{2}, 1, 7, false, true, few)
			add("2x1+2flush", []int{1, 1}, 2, 3, false, true, few)
			add("2,1+flush", []int{2, 1}, 1, 3, false, true, []int{0, 2})
			add("2,2", []int{2, 2}, 0, 4, false, true, []int{0, 2})
			add("3x1+flush", []int{1, 1, 1}, 1, 2, false, true, []int{1, 4})
			add("1+2flush", []int{1}, 2, 8, false, true, few)
			add("1+3flush", []int{1}, 3, 5, false, true, few)
		}
		depth := 5
		if tier == "thorough" {
			depth = 6
		}
		for f := 0; f < c08kinds+2; f++ {
			f := f
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("sequential/first=%d", f),
				Rule: fmt.Sprintf("all sequences of %d collections, flushes and waits longer than the interval (first fixed), checked after every flush", depth),
				Opt:  mc.Options{MapOrder: 2, MapFree: true},
				Body: func(t *mc.T) { c08seq(t, f, depth) },
			})
		}
		return
	})
}

func c08(t *mc.T, threads []int, flushes int, kinds []int) {
	cs := make([][]*coll, len(threads))
	var all []*coll
	for i, n := range threads {
		for j := 0; j < n; j++ {
			c := c08coll(i, j, kinds[t.Choose(len(kinds), "collection")])
			cs[i] = append(cs[i], c)
			all = append(all, c)
		}
	}
	cc := &appdash.ChunkedCollector{Collector: sink{points: true}, MinInterval: time.Second, FlushTimeout: time.Hour, MaxQueueSize: 1 << 20}
	var ts []*mc.T
	for i := range cs {
		i := i
		ts = append(ts, t.Go(fmt.Sprint("client", i), func() {
			for _, c := range cs[i] {
				c.do(cc)
			}
		}))
	}
	for i := 0; i < flushes; i++ {
		ts = append(ts, t.Go("flusher", func() {
			if err := cc.Flush(); err != nil {
				mc.Fail("Flush: %v", err)
			}
		}))
	}
	t.Join(ts...)
	end := t.Choose(2, "end")
	if end == 1 {
		mc.AfterIdle() // every thread waits, the timer is running
		mc.Calm()
	}
	for _, c := range all {
		if c.err != nil {
			t.Fail("Collect: %v", c.err)
		}
	}
	if end == 0 {
		must(t, cc.Flush(), "Flush")
		mc.AfterIdle() // an automatic flush that was in progress
		mc.Calm()
	} else {
		mc.SleepIdle(3 * time.Second)
	}
	ds := deliveries()
	if msg := exactlyOnce(all, ds, true); msg != "" {
		t.Fail("%s\ndeliveries: %s", msg, deliveryState(ds))
	}
	mc.State(deliveryState(ds))
	must(t, cc.Flush(), "Flush")
	mc.SleepIdle(3 * time.Second)
	if n := deliveries(); len(n) != len(ds) {
		t.Fail("delivered again: %s", deliveryState(n))
	}
}

func c08seq(t *mc.T, first, depth int) {
	cc := &appdash.ChunkedCollector{Collector: sink{}, MinInterval: time.Second}
	var all []*coll
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = t.Choose(c08kinds+2, "operation")
		}
		switch {
		case k < c08kinds:
			c := c08coll(0, i, k)
			c.do(cc)
			must(t, c.err, "Collect")
			all = append(all, c)
			continue
		case k == c08kinds:
			must(t, cc.Flush(), "Flush")
		default:
			mc.SleepIdle(2100 * time.Millisecond)
		}
		ds := deliveries()
		if msg := exactlyOnce(all, ds, true); msg != "" {
			t.Fail("%s\ndeliveries: %s", msg, deliveryState(ds))
		}
		mc.State(deliveryState(ds))
	}
}

// C09: queue bound, drop, timeout and error accounting.
func init() {
	kit.Prop("C09", func(tier string) (us []*kit.Unit) {
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		for _, limit := range []uint64{0, 24, 53, 84} {
			for f := 0; f < c09ops; f++ {
				limit, f := limit, f
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("model/limit=%d/first=%d", limit, f),
					Rule: fmt.Sprintf("all sequences of %d operations (collections of 24, 29, 53 and 60 bytes on two spans, flush, wait for an automatic flush; first fixed) with queue limit %d and every outcome (ok, error, as slow as the timeout, slower, slower and an error) of every delivery, in every map order", depth, limit),
					Opt:  mc.Options{MapOrder: 3, MapFree: true},
					Body: func(t *mc.T) { c09(t, limit, f, depth) },
				})
			}
		}
		conc := func(name string, threads []int, flush bool, bound int, first int) {
			us = append(us, &kit.Unit{
				Name: name,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of threads making %v collections of 24, 29 or 53 bytes against a limit of 82, with a concurrent flush: %v; some order of the operations must explain acceptances, refusals and deliveries", bound, threads, flush),
				Opt:  mc.Options{Bound: bound, MapOrder: 2},
				Body: func(t *mc.T) { c09conc(t, threads, flush, first) },
			})
		}
		for f := 0; f < 3; f++ {
			if tier == "quick" {
				conc(fmt.Sprintf("bound/2,1+flush/%d", f), []int{2, 1}, true, 2, f)
				conc(fmt.Sprintf("bound/2,2/%d", f), []int{2, 2}, false, 2, f)
			} else {
				conc(fmt.Sprintf("bound/2,1+flush/%d", f), []int{2, 1}, true, 4, f)
				conc(fmt.Sprintf("bound/2,2+flush/%d", f), []int{2, 2}, true, 3, f)
				conc(fmt.Sprintf("bound/3,2/%d", f), []int{3, 2}, false, 2, f)
			}
		}
		eb := 2
		if tier == "thorough" {
			eb = 4
		}
		us = append(us, &kit.Unit{
			Name: "errors/concurrent",
			Rule: fmt.Sprintf("all schedules with <= %d preemptions or early timers of two collecting threads while an automatic flush fails: its error is returned by exactly one later Collect", eb),
			Opt:  mc.Options{Bound: eb, Timers: true},
			Body: c09errs,
		}, &kit.Unit{
			Name: "race/errors", Race: true,
			Rule: fmt.Sprintf("all schedules with <= %d preemptions or early timers of two collecting threads while an automatic flush fails, under the race detector", eb-1),
			Opt:  mc.Options{Bound: eb - 1, Timers: true},
			Body: c09errs,
		}, &kit.Unit{
			Name: "defaults",
			Rule: "a collector made by NewChunkedCollector, with the documented settings: the queue takes exactly 32 MB, a flush stops after 2 s, an automatic flush comes after 500 ms, and its log can be used",
			Opt:  mc.Options{MapOrder: 2},
			Body: c09defaults,
		})
		return
	})
}

const c09ops = 7

var errUnder = []error{errors.New("under-error-0"), errors.New("under-error-1"), errors.New("under-error-2"), errors.New("under-error-3"),
	errors.New("under-error-4"), errors.New("under-error-5"), errors.New("under-error-6"), errors.New("under-error-7"), errors.New("under-error-8"), errors.New("under-error-9")}

func c09coll(n, k int) *coll {
	c := &coll{n: n, id: c08spans[0]}
	switch k {
	case 0:
	case 1: // 29 bytes
		c.anns = []appdash.Annotation{hx.A("k", fmt.Sprintf("%03d.", n))}
	case 2: // 53 bytes
		c.anns = []appdash.Annotation{hx.A("k", fmt.Sprintf("%03d.", n)), hx.A("", strings.Repeat("x", 20)+fmt.Sprintf("%04d", n))}
	case 3: // the other span
		c.id = c08spans[1]
		c.anns = []appdash.Annotation{hx.A("k", fmt.Sprintf("%03d.", n))}
	case 4: // 60 bytes, all in the key
		c.id = c08spans[1]
		c.anns = []appdash.Annotation{hx.A(strings.Repeat("y", 33)+fmt.Sprintf("%03d", n), "")}
	}
	return c
}

const c09timeout = 100 * time.Millisecond

func c09(t *mc.T, limit uint64, first, depth int) {
	nerr := 0
	onflush := 0
	size := -1
	cc := &appdash.ChunkedCollector{
		MinInterval:  1000 * time.Second,
		FlushTimeout: c09timeout,
		MaxQueueSize: limit,
		OnFlush:      func(n int) { onflush++; size = n },
	}
	type out struct {
		slow time.Duration
		err  error
	}
	var outs []out
	cc.Collector = sink{outcome: func(appdash.SpanID) (time.Duration, error) {
		var o out
		k := mc.Choose(5, "outcome")
		switch {
		case k == 2:
			o.slow = c09timeout
		case k >= 3:
			o.slow = c09timeout + 1
		}
		if k == 1 || k == 4 {
			o.err = errUnder[nerr%len(errUnder)]
			nerr++
		}
		outs = append(outs, o)
		return o.slow, o.err
	}}
	queue := map[appdash.SpanID][]string{}
	bytes := 0
	var lastErr []error
	checkErr := func(what string, got error, want []error) {
		if len(want) == 0 {
			if got != nil {
				t.Fail("%s gives error %v, expected none", what, got)
			}
			return
		}
		if got == nil {
			t.Fail("%s gives no error, expected %v", what, want)
		}
		if len(want) == 1 && !errors.Is(got, want[0]) {
			t.Fail("%s gives error %v, expected %v", what, got, want[0])
		}
		for _, w := range want {
			if !strings.Contains(got.Error(), w.Error()) {
				t.Fail("%s gives error %q, which does not report %q", what, got, w)
			}
		}
	}
	// flushed checks what a flush has done; it gives the errors to be reported.
	flushed := func(from int) (errs []error) {
		var el time.Duration
		ds := deliveries()[from:]
		for i, d := range ds {
			want, ok := queue[d.id]
			if !ok {
				t.Fail("span %v delivered, it is not pending (or again)", d.id)
			}
			if strings.Join(want, "\n") != strings.Join(d.anns, "\n") {
				t.Fail("span %v delivered with %v, pending is %v", d.id, d.anns, want)
			}
			delete(queue, d.id)
			o := outs[from+i]
			if o.err != nil {
				errs = append(errs, o.err)
			}
			el += o.slow
			if el > c09timeout {
				errs = append(errs, appdash.ErrQueueDropped)
				if i != len(ds)-1 {
					t.Fail("the flush goes on delivering after its timeout")
				}
				queue = map[appdash.SpanID][]string{}
			}
		}
		if len(queue) > 0 {
			t.Fail("flush did not attempt to deliver %v", queue)
		}
		bytes = 0
		return
	}
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = t.Choose(c09ops, "operation")
		}
		from := len(deliveries())
		n, of := len(queue), onflush
		switch {
		case k < 5:
			c := c09coll(i, k)
			c.do(cc)
			if limit != 0 && uint64(bytes+c.size()) > limit {
				if c.err != appdash.ErrQueueDropped {
					t.Fail("a collection of %d bytes on top of %d with limit %d gives %v, not ErrQueueDropped", c.size(), bytes, limit, c.err)
				}
				queue = map[appdash.SpanID][]string{}
				bytes = 0
				break
			}
			checkErr("Collect", c.err, lastErr)
			lastErr = nil
			bytes += c.size()
			queue[c.id] = append(queue[c.id], c.vals()...)
			if len(deliveries()) != from {
				t.Fail("Collect delivers at once")
			}
		case k == 5:
			err := cc.Flush()
			errs := flushed(from)
			checkErr("Flush", err, errs)
			if onflush != of+1 || size != n {
				t.Fail("OnFlush called %d times in a flush, with %d for %d pending spans", onflush-of, size, n)
			}
		case k == 6:
			mc.SleepIdle(2500 * time.Second)
			if errs := flushed(from); len(errs) > 0 {
				lastErr = errs
			}
		}
		mc.State(fmt.Sprint(queue, bytes, lastErr))
	}
	// what is left is delivered, what was dropped is not
	from := len(deliveries())
	err := cc.Flush()
	checkErr("last Flush", err, flushed(from))
}

func c09conc(t *mc.T, threads []int, flush bool, first int) {
	const limit = 82
	var all []*coll
	cs := make([][]*coll, len(threads))
	for i, n := range threads {
		for j := 0; j < n; j++ {
			k := first
			if i > 0 || j > 0 {
				k = t.Choose(3, "collection")
			}
			c := c09coll(len(all), k)
			c.who = i
			if i > 0 {
				c.id = c08spans[1]
			}
			cs[i] = append(cs[i], c)
			all = append(all, c)
		}
	}
	cc := &appdash.ChunkedCollector{Collector: sink{}, MinInterval: time.Hour, MaxQueueSize: limit}
	var ts []*mc.T
	for i := range cs {
		i := i
		ts = append(ts, t.Go(fmt.Sprint("client", i), func() {
			for _, c := range cs[i] {
				c.do(cc)
			}
		}))
	}
	var f *coll
	var mid []*delivery
	if flush {
		f = &coll{who: -1}
		ts = append(ts, t.Go("flusher", func() {
			f.call = mc.Stamp()
			f.err = cc.Flush()
			f.ret = mc.Stamp()
		}))
	}
	t.Join(ts...)
	mid = deliveries()
	must(t, cc.Flush(), "Flush")
	end := deliveries()[len(mid):]
	ops := all
	if f != nil {
		must(t, f.err, "Flush")
		ops = append(append([]*coll(nil), all...), f)
	}
	same := func(q map[appdash.SpanID][]string, ds []*delivery) bool {
		if len(q) != len(ds) {
			return false
		}
		for _, d := range ds {
			w, ok := q[d.id]
			if !ok || strings.Join(w, "\n") != strings.Join(d.anns, "\n") {
				return false
			}
		}
		return true
	}
	done := make([]bool, len(ops))
	var lin func(q map[appdash.SpanID][]string, bytes int) bool
	lin = func(q map[appdash.SpanID][]string, bytes int) bool {
		last := true
	next:
		for i, o := range ops {
			if done[i] {
				continue
			}
			last = false
			for j, p := range ops {
				if !done[j] && j != i && p.ret <= o.call {
					continue next
				}
			}
			q2 := map[appdash.SpanID][]string{}
			b2 := bytes
			if o == f {
				if !same(q, mid) {
					continue
				}
				b2 = 0
			} else if bytes+o.size() > limit {
				if o.err != appdash.ErrQueueDropped {
					continue
				}
				b2 = 0
			} else {
				if o.err != nil {
					continue
				}
				for k, v := range q {
					q2[k] = v
				}
				q2[o.id] = append(append([]string(nil), q[o.id]...), o.vals()...)
				b2 += o.size()
			}
			done[i] = true
			if lin(q2, b2) {
				return true
			}
			done[i] = false
		}
		return last && same(q, end)
	}
	if !lin(map[appdash.SpanID][]string{}, 0) {
		d := ""
		for _, o := range ops {
			d += fmt.Sprintf("  client%d [%d,%d] %v %v -> %v\n", o.who, o.call, o.ret, o.id, o.vals(), o.err)
		}
		t.Fail("no order of the operations explains\n%sdelivered by the flush: %s\nat the end: %s", d, deliveryState(mid), deliveryState(end))
	}
	mc.State(deliveryState(mid) + "/" + deliveryState(end))
}

func c09errs(t *mc.T) {
	e := errors.New("automatic-flush-failed")
	left := 1
	cc := &appdash.ChunkedCollector{MinInterval: time.Second, Collector: sink{points: true, outcome: func(appdash.SpanID) (time.Duration, error) {
		if left > 0 {
			left--
			return 0, e
		}
		return 0, nil
	}}}
	must(t, cc.Collect(c08spans[0]), "Collect")
	a, b := c08coll(1, 0, 1), c08coll(2, 0, 4)
	ts := []*mc.T{t.Go("a", func() { a.do(cc) }), t.Go("b", func() { b.do(cc) })}
	t.Join(ts...)
	mc.AfterIdle()
	mc.Calm()
	mc.SleepIdle(3500 * time.Millisecond)
	c, d := c08coll(3, 0, 1), c08coll(4, 0, 1)
	c.do(cc)
	d.do(cc)
	n := 0
	for _, x := range []*coll{a, b, c, d} {
		if x.err != nil {
			n++
			if !errors.Is(x.err, e) {
				t.Fail("Collect gives %v", x.err)
			}
		}
	}
	if n != 1 {
		t.Fail("the error of an automatic flush was returned by %d later Collects", n)
	}
	mc.State(fmt.Sprint(a.err, b.err, c.err))
}

func c09defaults(t *mc.T) {
	slow := time.Duration(0)
	n := 0
	cc := appdash.NewChunkedCollector(sink{outcome: func(appdash.SpanID) (time.Duration, error) {
		n++
		return slow, nil
	}})
	cc.Log.SetOutput(io.Discard)
	cc.Log.Print("the log can be used")
	const limit = 32 * 1024 * 1024
	if cc.MinInterval != 500*time.Millisecond || cc.FlushTimeout != 2*time.Second || cc.MaxQueueSize != limit {
		t.Fail("NewChunkedCollector sets an interval of %v, a flush timeout of %v and a queue limit of %d", cc.MinInterval, cc.FlushTimeout, cc.MaxQueueSize)
	}
	switch t.Choose(3, "what") {
	case 0: // the queue
		over := t.Choose(2, "over")
		v := make([]byte, limit-2*24-1+over)
		must(t, cc.Collect(c08spans[1]), "Collect")
		err := cc.Collect(c08spans[0], appdash.Annotation{Key: "k", Value: v})
		if over == 0 && err != nil || over == 1 && !errors.Is(err, appdash.ErrQueueDropped) {
			t.Fail("%d bytes over 32 MB: Collect gives %v", over, err)
		}
		must(t, cc.Flush(), "Flush")
		if want := 2 * (1 - over); n != want {
			t.Fail("%d spans are delivered, expected %d", n, want)
		}
	case 1: // the timeout of a flush
		over := t.Choose(2, "over")
		slow = 2*time.Second - 1 + 2*time.Duration(over)
		cc.MinInterval = 1000 * time.Second
		must(t, cc.Collect(c08spans[0]), "Collect")
		must(t, cc.Collect(c08spans[1]), "Collect")
		err := cc.Flush()
		if !errors.Is(err, appdash.ErrQueueDropped) {
			t.Fail("two deliveries of %v each: Flush gives %v", slow, err)
		}
		if want := 2 - over; n != want {
			t.Fail("with deliveries that take %v each, %d spans are delivered by a flush, expected %d", slow, n, want)
		}
	case 2: // the interval
		must(t, cc.Collect(c08spans[0]), "Collect")
		mc.AfterIdle()
		if n != 0 {
			t.Fail("delivered at once")
		}
		mc.SleepIdle(500*time.Millisecond + 1)
		if n != 1 {
			t.Fail("%d deliveries after 500 ms", n)
		}
	}
	mc.State(fmt.Sprint(n))
}

// C10: the life cycle.
func init() {
	kit.Prop("C10", func(tier string) (us []*kit.Unit) {
		depth := 6
		if tier == "thorough" {
			depth = 8
		}
		for f := 0; f < 4; f++ {
			f := f
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("sequential/first=%d", f),
				Rule: fmt.Sprintf("all sequences of %d of: collect, flush, stop, wait for the timer (first fixed)", depth),
				Opt:  mc.Options{MapOrder: 0},
				Body: func(t *mc.T) { c10seq(t, f, depth) },
			})
		}
		add := func(name string, race bool, bound, stops, flushes int, threads []int, before bool) {
			us = append(us, &kit.Unit{
				Name: name, Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions or early timers of threads making %v collections, %d flushes and %d stops; a collection before them: %v", bound, threads, flushes, stops, before),
				Opt:  mc.Options{Bound: bound, Timers: true},
				Body: func(t *mc.T) { c10(t, stops, flushes, threads, before) },
			})
		}
		for _, before := range []bool{false, true} {
			n := fmt.Sprintf("/before=%v", before)
			if tier == "quick" {
				add("race/1+2stop"+n, true, 2, 2, 0, []int{1}, before)
				add("race/1+stop+flush"+n, true, 2, 1, 1, []int{1}, before)
				add("race/2x1+stop"+n, true, 2, 1, 0, []int{1, 1}, before)
				add("1+2stop+flush"+n, false, 2, 2, 1, []int{1}, before)
				add("2,1+stop"+n, false, 3, 1, 0, []int{2, 1}, before)
				add("2+stop+flush"+n, false, 3, 1, 1, []int{2}, before)
			} else {
				add("race/1+2stop+flush"+n, true, 4, 2, 1, []int{1}, before)
				add("race/2,1+stop"+n, true, 3, 1, 0, []int{2, 1}, before)
				add("1+2stop+flush"+n, false, 7, 2, 1, []int{1}, before)
				add("2,1+2stop"+n, false, 5, 2, 0, []int{2, 1}, before)
				add("2,1+stop+flush"+n, false, 4, 1, 1, []int{2, 1}, before)
				add("2+stop+2flush"+n, false, 4, 1, 2, []int{2}, before)
			}
		}
		return
	})
}

func c10seq(t *mc.T, first, depth int) {
	cc := &appdash.ChunkedCollector{Collector: sink{}, MinInterval: time.Second}
	stopped := false
	var all []*coll
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = t.Choose(4, "operation")
		}
		n := len(deliveries())
		switch k {
		case 0:
			c := c08coll(0, i, 1)
			c.do(cc)
			if (c.err != nil) != stopped {
				t.Fail("Collect gives %v, stopped: %v", c.err, stopped)
			}
			all = append(all, c)
		case 1:
			must(t, cc.Flush(), "Flush")
		case 2:
			cc.Stop()
			n = len(deliveries())
			stopped = true
			mc.AfterIdle() // no timer is due at this time
			if len(deliveries()) != n {
				t.Fail("data is sent after Stop although no flush was due")
			}
			if l := mc.LiveThreads(); l != 1 {
				t.Fail("%d goroutines are left after Stop", l-1)
			}
		case 3:
			mc.SleepIdle(2500 * time.Millisecond)
			if stopped && len(deliveries()) != n {
				t.Fail("a flush sends data after Stop")
			}
		}
		if msg := exactlyOnce(all, deliveries(), false); msg != "" {
			t.Fail("%s", msg)
		}
	}
	mc.State(fmt.Sprint(stopped, len(all), len(deliveries())))
}

func c10(t *mc.T, stops, flushes int, threads []int, before bool) {
	cc := &appdash.ChunkedCollector{Collector: sink{points: true}, MinInterval: time.Second}
	var all []*coll
	if before {
		c := c08coll(9, 0, 1)
		c.do(cc)
		must(t, c.err, "Collect")
		all = append(all, c)
	}
	cs := make([][]*coll, len(threads))
	for i, n := range threads {
		for j := 0; j < n; j++ {
			c := c08coll(i, j, 1)
			cs[i] = append(cs[i], c)
			all = append(all, c)
		}
	}
	var ts []*mc.T
	for i := range cs {
		i := i
		ts = append(ts, t.Go(fmt.Sprint("client", i), func() {
			for _, c := range cs[i] {
				c.do(cc)
			}
		}))
	}
	for i := 0; i < flushes; i++ {
		ts = append(ts, t.Go("flusher", func() {
			if err := cc.Flush(); err != nil {
				mc.Fail("Flush: %v", err)
			}
		}))
	}
	rets := make([]int, stops)
	calls := make([]int, stops)
	for i := 0; i < stops; i++ {
		i := i
		ts = append(ts, t.Go("stopper", func() {
			calls[i] = mc.Stamp()
			cc.Stop()
			rets[i] = mc.Stamp()
		}))
	}
	t.Join(ts...)
	stop, call := rets[0], calls[0]
	for i := range rets {
		if rets[i] < stop {
			stop = rets[i]
		}
		if calls[i] < call {
			call = calls[i]
		}
	}
	for _, c := range all {
		if c.call > stop && c.err == nil {
			t.Fail("a Collect that began after Stop returned was accepted")
		}
		if c.ret < call && c.err != nil {
			t.Fail("a Collect that returned before Stop was called gives %v", c.err)
		}
	}
	mc.AfterIdle() // flushes that were due before the stop
	mc.Calm()
	if l := mc.LiveThreads(); l != 1 {
		t.Fail("%d goroutines are left after Stop", l-1)
	}
	ds := deliveries()
	mc.SleepIdle(5 * time.Second)
	if late := deliveries()[len(ds):]; len(late) != 0 {
		t.Fail("an automatic flush after Stop sends %s", deliveryState(late))
	}
	if msg := exactlyOnce(all, ds, false); msg != "" {
		t.Fail("%s", msg)
	}
	late := &coll{id: c08spans[1], anns: []appdash.Annotation{hx.A("k", "late")}}
	late.do(cc)
	if late.err == nil {
		t.Fail("Collect after Stop gives no error")
	}
	cc.Flush()
	if msg := exactlyOnce(append(all, late), deliveries(), false); msg != "" {
		t.Fail("%s", msg)
	}
	s := ""
	for _, c := range all {
		s += fmt.Sprint(c.err == nil)
	}
	mc.State(s + deliveryState(ds))
}
