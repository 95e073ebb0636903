package main

import (
	"bytes"
	"fmt"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C03: the memory store is linearizable, its answers are snapshots.
func init() {
	kit.Prop("C03", func(tier string) (us []*kit.Unit) {
		add := func(name string, threads []int, bound int, first int, race bool) {
			us = append(us, &kit.Unit{
				Name: name, Race: race,
				Rule: fmt.Sprintf("all interleavings with <= %d preemptions of threads with %v operations each, every operation from the alphabet of %d (first operation fixed per unit), on a store with colliding spans; brute-force linearisation of the history", bound, threads, c03ops),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c03(t, threads, first) },
			})
		}
		for f := 0; f < c03ops; f++ {
			if tier == "quick" {
				add(fmt.Sprintf("2x1/first=%d/race", f), []int{1, 1}, 4, f, true)
				add(fmt.Sprintf("2,1/first=%d", f), []int{2, 1}, 3, f, false)
				add(fmt.Sprintf("3x1/first=%d", f), []int{1, 1, 1}, 2, f, false)
				add(fmt.Sprintf("2,1/first=%d/race", f), []int{2, 1}, 1, f, true)
			} else {
				add(fmt.Sprintf("2,1/first=%d/race", f), []int{2, 1}, 4, f, true)
				add(fmt.Sprintf("3x1/first=%d/race", f), []int{1, 1, 1}, 2, f, true)
				add(fmt.Sprintf("2x2/first=%d", f), []int{2, 2}, 3, f, false)
				add(fmt.Sprintf("3x1/first=%d", f), []int{1, 1, 1}, 6, f, false)
			}
		}
		return
	})
}

const c03ops = 12

type c03op struct {
	kind      int
	call, ret int
	tr        *appdash.Trace
	trs       []*appdash.Trace
	err       error
	snap      string // of what was returned, at the time of the return
	buf       []byte
}

var c03imgM *hx.StoreM

func c03image() []byte {
	// the image that a load operation reads: another state of trace 1, and trace 3
	m := hx.NewM()
	s := appdash.NewMemoryStore()
	for _, id := range []appdash.SpanID{hx.ID(1, 10, 0), hx.ID(1, 77, 10), hx.ID(3, 10, 0)} {
		s.Collect(id, hx.A("img", "1"))
		m.Collect(id, hx.A("img", "1"))
	}
	var b bytes.Buffer
	if err := s.Write(&b); err != nil {
		panic(err)
	}
	c03imgM = m
	return b.Bytes()
}

// the operations on spans
func c03span(kind, who int) (appdash.SpanID, []appdash.Annotation) {
	a := hx.A("by", fmt.Sprint(who))
	switch kind {
	case 0: // annotation for a span that exists
		return hx.ID(1, 11, 10), []appdash.Annotation{a}
	case 1: // the parent that span 13 waits for
		return hx.ID(1, 12, 10), []appdash.Annotation{a}
	case 2: // root of trace 2, which has a temporary one
		return hx.ID(2, 10, 0), []appdash.Annotation{a}
	case 3: // a new trace, the same span from every thread
		return hx.ID(4, 10, 0), []appdash.Annotation{a}
	}
	panic("kind")
}

func c03(t *mc.T, threads []int, first int) {
	img := c03image()
	s := appdash.NewMemoryStore()
	m := hx.NewM()
	init := func(id appdash.SpanID, as ...appdash.Annotation) {
		s.Collect(id, as...)
		m.Collect(id, as...)
	}
	init(hx.ID(1, 10, 0), hx.A("r", "0"))
	init(hx.ID(1, 11, 10), hx.A("a", "0"))
	init(hx.ID(1, 11, 10), hx.A("a", "1"))
	init(hx.ID(1, 11, 10), hx.A("a", "2")) // leaves spare capacity
	init(hx.ID(1, 13, 12), hx.A("c", "0"))
	init(hx.ID(2, 11, 10), hx.A("t", "0"))

	ops := make([][]*c03op, len(threads))
	for i, n := range threads {
		for j := 0; j < n; j++ {
			k := first
			if i > 0 || j > 0 {
				k = t.Choose(c03ops, "operation")
			}
			ops[i] = append(ops[i], &c03op{kind: k})
		}
	}
	var ts []*mc.T
	for i := range threads {
		i := i
		ts = append(ts, t.Go(fmt.Sprint("client", i), func() {
			for _, o := range ops[i] {
				c03do(s, o, i, img)
			}
			for _, o := range ops[i] {
				if msg := o.changed(); msg != "" {
					mc.Fail("%s", msg)
				}
			}
		}))
	}
	t.Join(ts...)
	var all []*c03op
	var who []int
	for i := range ops {
		for _, o := range ops[i] {
			if msg := o.changed(); msg != "" {
				t.Fail("%s", msg)
			}
			all = append(all, o)
			who = append(who, i)
		}
	}
	if !c03lin(all, who, make([]bool, len(all)), m, s) {
		desc := ""
		for i, o := range all {
			desc += fmt.Sprintf("  client%d operation %d [%d,%d] -> err=%v %s\n", who[i], o.kind, o.call, o.ret, o.err, o.snap)
		}
		t.Fail("no order of the operations explains the answers and the final contents:\n%sfinal:\n%s\ninitial: %s", desc, hx.StoreTree(s), m.Canon())
	}
	mc.State(hx.StoreTree(s))
}

func (o *c03op) now() string {
	if o.tr != nil {
		return hx.Tree(o.tr)
	}
	s := ""
	for _, t := range o.trs {
		s += hx.Tree(t) + "\n"
	}
	return s
}

func (o *c03op) changed() string {
	if n := o.now(); n != o.snap {
		return fmt.Sprintf("a trace that was returned as\n%s\nhas changed to\n%s", o.snap, n)
	}
	return ""
}

func c03do(s *appdash.MemoryStore, o *c03op, who int, img []byte) {
	o.call = mc.Stamp()
	switch o.kind {
	case 0, 1, 2, 3:
		id, as := c03span(o.kind, who)
		o.err = s.Collect(id, as...)
	case 4:
		o.tr, o.err = s.Trace(1)
	case 5:
		o.tr, o.err = s.Trace(2)
	case 6:
		o.trs, o.err = s.Traces(appdash.TracesOpts{})
	case 7:
		o.err = s.Delete(1)
	case 10:
		o.err = s.Delete(2, 1)
	case 11:
		o.trs, o.err = s.Traces(appdash.TracesOpts{TraceIDs: []appdash.ID{1, 4}})
	case 8:
		var b bytes.Buffer
		o.err = s.Write(&b)
		o.buf = b.Bytes()
	case 9:
		_, o.err = s.ReadFrom(bytes.NewReader(img))
	}
	o.ret = mc.Stamp()
	o.snap = o.now()
}

// c03lin looks for an order of the remaining operations that fits the model.
func c03lin(ops []*c03op, who []int, done []bool, m *hx.StoreM, s *appdash.MemoryStore) bool {
	all := true
	for i, o := range ops {
		if done[i] {
			continue
		}
		all = false
		ok := true
		for j, p := range ops {
			if !done[j] && j != i && p.ret <= o.call {
				ok = false
			}
		}
		if !ok {
			continue
		}
		m2 := m.Clone()
		if !c03fits(o, who[i], m2) {
			continue
		}
		done[i] = true
		if c03lin(ops, who, done, m2, s) {
			return true
		}
		done[i] = false
	}
	return all && hx.CheckStore(s, m, 1, 2, 3, 4) == ""
}

func c03fits(o *c03op, who int, m *hx.StoreM) bool {
	switch o.kind {
	case 0, 1, 2, 3:
		id, as := c03span(o.kind, who)
		m.Collect(id, as...)
		return o.err == nil
	case 4, 5:
		return hx.CheckOne(func(appdash.ID) (*appdash.Trace, error) { return o.tr, o.err }, m, appdash.ID(o.kind-3)) == ""
	case 6:
		return o.err == nil && hx.CheckList(o.trs, m) == ""
	case 7:
		m.Delete(1)
		return o.err == nil
	case 10:
		m.Delete(1)
		m.Delete(2)
		return o.err == nil
	case 11:
		return o.err == nil && c03subset(o.trs, m)
	case 8:
		l := appdash.NewMemoryStore()
		if _, err := l.ReadFrom(bytes.NewReader(o.buf)); err != nil {
			return false
		}
		return o.err == nil && hx.CheckStore(l, m, 1, 2, 3, 4) == ""
	case 9:
		n := c03imgM.Clone()
		m.T = n.T
		return o.err == nil
	}
	return false
}

// c03subset compares the answer to a query for traces 1 and 4.
func c03subset(ts []*appdash.Trace, m *hx.StoreM) bool {
	m2 := m.Clone()
	for id := range m2.T {
		if id != 1 && id != 4 {
			delete(m2.T, id)
		}
	}
	return hx.CheckList(ts, m2) == ""
}
