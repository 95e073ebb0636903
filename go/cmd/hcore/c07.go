package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C07: a limited store keeps the newest Max traces.
func init() {
	kit.Prop("C07", func(tier string) (us []*kit.Unit) {
		depth := 8
		if tier == "thorough" {
			depth = 9
		}
		for max := 0; max <= 3; max++ {
			for v := 0; v < 2; v++ {
				for f := 0; f < max+2; f++ {
					max, v, f := max, v, f
					d := depth
					if max == 3 {
						d--
					}
					us = append(us, &kit.Unit{
						Name: fmt.Sprintf("sequences/max=%d/ids=%d/second=%d", max, v, f),
						Rule: fmt.Sprintf("all sequences of %d collections over %d traces (second one fixed) with a limit of %d, trace IDs %v", d, max+2, max, c07ids[v][:max+2]),
						Body: func(t *mc.T) { c07seq(t, max, v, f, d) },
					})
				}
			}
		}
		add := func(name string, max int, threads []int, bound int, race bool) {
			us = append(us, &kit.Unit{
				Name: name, Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of threads that make %v collections over 3 traces, limit %d, with a reader; some order of the calls must explain the final contents, and the limit holds at every moment", bound, threads, max),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c07conc(t, max, threads) },
			})
		}
		for max := 1; max <= 2; max++ {
			n := fmt.Sprintf("/max=%d", max)
			if tier == "quick" {
				add("race/2x1"+n, max, []int{1, 1}, 2, true)
				add("2,1"+n, max, []int{2, 1}, 3, false)
				add("2,2"+n, max, []int{2, 2}, 1, false)
				add("3x1"+n, max, []int{1, 1, 1}, 2, false)
			} else {
				add("race/2,1"+n, max, []int{2, 1}, 2, true)
				add("2,1"+n, max, []int{2, 1}, 6, false)
				add("2,2"+n, max, []int{2, 2}, 3, false)
				add("3x1"+n, max, []int{1, 1, 1}, 4, false)
				add("3,2"+n, max, []int{3, 2}, 2, false)
			}
		}
		fd := 6
		if tier == "thorough" {
			fd = 7
		}
		for max := 1; max <= 3; max++ {
			for f := 0; f < max+2; f++ {
				max, f := max, f
				d := fd
				if max == 3 {
					d--
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("faults/max=%d/second=%d", max, f),
					Rule: fmt.Sprintf("all sequences of %d collections over %d traces (second one fixed) with a limit of %d, with <= 2 failing deletions or collections of the underlying store at any place: the error is returned, a failing deletion changes nothing, and the limit holds", d, max+2, max),
					Body: func(t *mc.T) { c07faults(t, max, f, d) },
				})
			}
		}
		us = append(us, &kit.Unit{
			Name: "other traces",
			Rule: "traces that were stored before, and are not collected through the limited store, stay; all sequences of 5 collections over 4 traces, limit 2",
			Body: c07other,
		})
		return
	})
}

var c07ids = [2][5]uint64{{1, 2, 3, 4, 5}, {1 << 63, ^uint64(0), 1<<63 - 1, 1, 1 << 32}}

// c07model is a limited store.
type c07model struct {
	max   int
	order []appdash.ID
	m     *hx.StoreM
}

func (l *c07model) collect(id appdash.SpanID, as ...appdash.Annotation) {
	if l.max == 0 {
		return
	}
	if !l.held(id.Trace) {
		l.evict()
		l.order = append(l.order[:len(l.order):len(l.order)], id.Trace)
	}
	l.m.Collect(id, as...)
}

func (l *c07model) held(id appdash.ID) bool {
	for _, x := range l.order {
		if x == id {
			return true
		}
	}
	return false
}

// evict makes room for another trace.
func (l *c07model) evict() {
	if len(l.order) == l.max {
		l.m.Delete(l.order[0])
		l.order = l.order[1:]
	}
}

// refused returns what the store may hold after the underlying store refused
// a span of a trace that was not held: the trace may count as held
// nevertheless, and the oldest trace may have had to go or not.
func (l *c07model) refused(id appdash.ID) []*c07model {
	a, c := *l, *l
	a.m, c.m = l.m.Clone(), l.m.Clone()
	a.evict()
	a.order = append(a.order[:len(a.order):len(a.order)], id)
	c.evict()
	return []*c07model{l, &a, &c}
}

func c07seq(t *mc.T, max, v, second, depth int) {
	ms := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: max, DeleteStore: ms}
	l := &c07model{max: max, m: hx.NewM()}
	for i := 0; i < depth; i++ {
		k := 0
		if i == 1 {
			k = second
		} else if i > 1 {
			k = t.Choose(max+2, "trace")
		}
		id := hx.ID(c07ids[v][k], 10, 0)
		if i%3 == 2 {
			id = hx.ID(c07ids[v][k], 11, 10)
		}
		a := hx.A("n", fmt.Sprint(i))
		l.collect(id, a)
		must(t, ls.Collect(id, a), "Collect")
		var ids []appdash.ID
		for _, x := range c07ids[v][:max+2] {
			ids = append(ids, appdash.ID(x))
		}
		if msg := hx.CheckStore(ms, l.m, ids...); msg != "" {
			t.Fail("after %d collections, the last for trace %x, traces in order of first collection %x: %s", i+1, uint64(id.Trace), l.order, msg)
		}
		mc.State(l.m.Canon())
	}
}

func c07conc(t *mc.T, max int, threads []int) {
	ms := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: max, DeleteStore: ms}
	var all []*coll
	init := &coll{id: hx.ID(1, 10, 0), anns: []appdash.Annotation{hx.A("init", "")}}
	must(t, ls.Collect(init.id, init.anns...), "Collect")
	cs := make([][]*coll, len(threads))
	for i, n := range threads {
		for j := 0; j < n; j++ {
			k := t.Choose(3, "trace")
			c := &coll{who: i, n: j, id: hx.ID(uint64(k+1), 10, 0), anns: []appdash.Annotation{hx.A("by", fmt.Sprint(i, j))}}
			cs[i] = append(cs[i], c)
			all = append(all, c)
		}
	}
	var ts []*mc.T
	for i := range cs {
		i := i
		ts = append(ts, t.Go(fmt.Sprint("client", i), func() {
			for _, c := range cs[i] {
				c.call = mc.Stamp()
				c.err = ls.Collect(c.id, c.anns...)
				c.ret = mc.Stamp()
			}
		}))
	}
	ts = append(ts, t.Go("reader", func() {
		l, err := ms.Traces(appdash.TracesOpts{})
		if err != nil {
			mc.Fail("Traces: %v", err)
		}
		if len(l) > max {
			mc.Fail("the store holds %d traces, the limit is %d", len(l), max)
		}
	}))
	t.Join(ts...)
	mc.AfterIdle()
	mc.Calm()
	for _, c := range all {
		must(t, c.err, "Collect")
	}
	// Two further collections show which trace is the oldest.
	var finals []string
	done := make([]bool, len(all))
	var lin func(l *c07model) bool
	final := appdash.ID(0)
	final = 7
	before := canonList(t, ms)
	must(t, ls.Collect(hx.ID(uint64(final), 10, 0)), "Collect")
	after := canonList(t, ms)
	lin = func(l *c07model) bool {
		last := true
	next:
		for i, c := range all {
			if done[i] {
				continue
			}
			last = false
			for j, p := range all {
				if !done[j] && j != i && p.ret <= c.call {
					continue next
				}
			}
			n := &c07model{max: l.max, order: l.order, m: l.m.Clone()}
			n.collect(c.id, c.anns...)
			done[i] = true
			ok := lin(n)
			done[i] = false
			if ok {
				return true
			}
		}
		if last {
			b := l.m.Canon()
			l.collect(hx.ID(uint64(final), 10, 0))
			finals = append(finals, b)
			return b == before && l.m.Canon() == after
		}
		return false
	}
	l := &c07model{max: max, m: hx.NewM()}
	l.collect(init.id, init.anns...)
	if !lin(l) {
		sort.Strings(finals)
		t.Fail("the store holds\n%s\nand after one more trace\n%s\nno order of the collections leads there, only to %v", before, after, finals)
	}
	mc.State(before)
}

func canonList(t *mc.T, s hx.Querier) string {
	ts, err := s.Traces(appdash.TracesOpts{})
	must(t, err, "Traces")
	m := hx.NewM()
	for _, tr := range ts {
		nodes, msg := hx.Flatten(tr)
		if msg != "" {
			t.Fail("%s", msg)
		}
		for _, n := range nodes {
			m.Collect(n.T.Span.ID, n.T.Span.Annotations...)
		}
	}
	return m.Canon()
}

func c07other(t *mc.T) {
	ms := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: 2, DeleteStore: ms}
	other := hx.ID(9, 1, 0)
	must(t, ms.Collect(other, hx.A("o", "1")), "Collect")
	l := &c07model{max: 2, m: hx.NewM()}
	for i := 0; i < 5; i++ {
		id := hx.ID(uint64(1+t.Choose(4, "trace")), uint64(10+i), 0)
		l.collect(id)
		must(t, ls.Collect(id), "Collect")
		m := l.m.Clone()
		m.Collect(other, hx.A("o", "1"))
		if msg := hx.CheckStore(ms, m, 1, 2, 3, 4, 9); msg != "" {
			t.Fail("%s", msg)
		}
	}
}

// c07faulty is a store in which operations fail.
type c07faulty struct {
	*appdash.MemoryStore
	left  int
	calls int
	hit   error // the failure of the current collection
	op    string
}

func (s *c07faulty) fail(op string) error {
	s.calls++
	if s.left == 0 || mc.Choose(2, op+" fails") == 0 {
		return nil
	}
	s.left--
	s.op = op
	s.hit = fmt.Errorf("%s %d failed", op, s.calls)
	return s.hit
}

func (s *c07faulty) Delete(ids ...appdash.ID) error {
	if err := s.fail("deletion"); err != nil {
		return err
	}
	return s.MemoryStore.Delete(ids...)
}

func (s *c07faulty) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if err := s.fail("collection"); err != nil {
		return err
	}
	return s.MemoryStore.Collect(id, as...)
}

func c07faults(t *mc.T, max, second, depth int) {
	fs := &c07faulty{MemoryStore: appdash.NewMemoryStore(), left: 2}
	ls := &appdash.LimitStore{Max: max, DeleteStore: fs}
	ls7 := []*c07model{{max: max, m: hx.NewM()}} // what the store may hold
	var ids []appdash.ID
	for k := 0; k < max+2; k++ {
		ids = append(ids, appdash.ID(k+1))
	}
	for i := 0; i < depth; i++ {
		k := 0
		if i == 1 {
			k = second
		} else if i > 1 {
			k = t.Choose(max+2, "trace")
		}
		id := hx.ID(uint64(k+1), 10, 0)
		if i%3 == 2 {
			id = hx.ID(uint64(k+1), 11, 10)
		}
		a := hx.A("n", fmt.Sprint(i))
		fs.hit = nil
		err := ls.Collect(id, a)
		var next []*c07model
		if fs.hit != nil {
			if !errors.Is(err, fs.hit) {
				t.Fail("the underlying store gives %v, Collect returns %v", fs.hit, err)
			}
			for _, l := range ls7 {
				if fs.op == "collection" && !l.held(id.Trace) {
					next = append(next, l.refused(id.Trace)...)
				} else {
					next = append(next, l)
				}
			}
		} else {
			must(t, err, "Collect")
			for _, l := range ls7 {
				l.collect(id, a)
				next = append(next, l)
			}
		}
		ts, err := fs.MemoryStore.Traces(appdash.TracesOpts{})
		must(t, err, "Traces")
		if len(ts) > max {
			t.Fail("the store holds %d traces, the limit is %d", len(ts), max)
		}
		ls7 = ls7[:0]
		var msgs []string
		for _, l := range next {
			if msg := hx.CheckStore(fs.MemoryStore, l.m, ids...); msg == "" {
				ls7 = append(ls7, l)
			} else {
				msgs = append(msgs, fmt.Sprintf("traces in order of first collection %x: %s", l.order, msg))
			}
		}
		if len(ls7) == 0 {
			t.Fail("after %d collections, the last for trace %x (failure: %v): %s", i+1, uint64(id.Trace), fs.hit, strings.Join(msgs, "; or "))
		}
		mc.State(ls7[0].m.Canon())
	}
}
