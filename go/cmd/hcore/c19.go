package main

import (
	"fmt"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C19: generated IDs.
func init() {
	kit.Prop("C19", func(tier string) (us []*kit.Unit) {
		us = append(us, &kit.Unit{
			Name: "carry",
			Rule: "random initial states whose counter has 0-16 low bytes of value x (x in 00, ff, fe), high bytes 00, 01, 5a, fe, ff, two key patterns: 24 IDs after each are distinct; the ID after the counter's low bytes have all run over is not the one with which they began",
			Body: c19carry,
		}, &kit.Unit{
			Name: "states",
			Rule: "random initial states in which each single byte of key and counter takes all 256 values: 12 IDs after each are distinct",
			Body: c19states,
		}, &kit.Unit{
			Name: "long",
			Rule: "140000 IDs in a row (300000 in thorough) from four initial states, across all carries of the two lowest bytes",
			Opt:  mc.Options{Horizon: 1 << 30},
			Body: func(t *mc.T) { c19long(t, map[string]int{"quick": 140000, "thorough": 300000}[tier]) },
		}, &kit.Unit{
			Name: "relation",
			Rule: "all histories of up to 5 root spans and children of any span made before or of given extreme spans: parents, traces, distinct identifiers",
			Body: c19relation,
		})
		add := func(race bool, bound int, per ...int) {
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("concurrent/%v/%d", per, bound), Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of goroutines that generate %v span IDs (roots and children), from 4 initial states with a carry among them", bound, per),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c19conc(t, per) },
			})
		}
		// (The race detector does not see what the assembly of the cipher reads and writes.)
		unlocked := func(bound int, per ...int) {
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("unlocked/%v/%d", per, bound),
				Rule: fmt.Sprintf("the same with preemptions right after the release of a lock, too: all schedules with <= %d preemptions of %v span IDs", bound, per),
				Opt:  mc.Options{Bound: bound, AfterUnlock: true},
				Body: func(t *mc.T) { c19conc(t, per) },
			})
		}
		if tier == "quick" {
			add(true, 3, 2, 2)
			add(true, 2, 1, 2, 1)
			add(false, 4, 3, 2)
			add(false, 3, 2, 1, 2)
			add(false, 3, 1, 1, 1, 1)
			unlocked(3, 2, 2)
			unlocked(2, 2, 1, 2)
		} else {
			add(true, 5, 3, 3)
			add(true, 3, 2, 2, 2)
			add(false, 7, 4, 4)
			add(false, 4, 2, 3, 2)
			add(false, 4, 2, 1, 1, 2)
			unlocked(5, 3, 3)
			unlocked(3, 2, 2, 2)
		}
		return
	})
}

// c19seed makes the initial random state: a key, and a counter whose k low bytes are lo.
func c19seed(key, hi, lo byte, k int) []byte {
	b := make([]byte, 32)
	for i := range b {
		switch {
		case i < 16:
			b[i] = key ^ byte(i*17)
		case i < 32-k:
			b[i] = hi
		default:
			b[i] = lo
		}
	}
	return b
}

// c19ids takes n identifiers.
func c19ids(n int) (ids []appdash.ID) {
	for len(ids) < n {
		r := appdash.NewRootSpanID()
		ids = append(ids, r.Trace, r.Span)
	}
	return ids[:n]
}

func c19distinct(t *mc.T, ids []appdash.ID, what string) {
	seen := make(map[appdash.ID]int, len(ids))
	for i, id := range ids {
		if j, ok := seen[id]; ok {
			t.Fail("%s: identifiers %d and %d are both %v", what, j, i, id)
		}
		seen[id] = i
	}
}

func c19carry(t *mc.T) {
	key := []byte{0x3c, 0xa5}[t.Choose(2, "key")]
	hi := []byte{0x00, 0x01, 0x5a, 0xfe, 0xff}[t.Choose(5, "high bytes")]
	k := t.Choose(17, "low bytes")
	lo := []byte{0xff, 0xfe, 0x00}[t.Choose(3, "value of the low bytes")]
	what := fmt.Sprintf("counter %x", c19seed(key, hi, lo, k)[16:])
	mc.Reinit(c19seed(key, hi, lo, k))
	ids := c19ids(24)
	c19distinct(t, ids, what)
	if lo == 0xff && k < 16 {
		// Counting from low bytes 0 leads to low bytes ff and then must not lead back.
		mc.Reinit(c19seed(key, hi, 0, k))
		begin := c19ids(2)
		if k > 0 && (begin[0] == ids[2] || begin[1] == ids[3]) {
			t.Fail("%s: after all %d low bytes have run over, the identifiers begin again with %v", what, k, ids[2])
		}
	}
	mc.State(what)
}

func c19states(t *mc.T) {
	b := c19seed(0x11, 0xff, 0xff, 3)
	i := t.Choose(32, "byte")
	b[i] = byte(t.Choose(16, "high digit")<<4 | t.Choose(16, "low digit"))
	mc.Reinit(b)
	c19distinct(t, c19ids(12), fmt.Sprintf("random state %x", b))
	mc.State(fmt.Sprintf("%x", b))
}

func c19long(t *mc.T, n int) {
	b := [][]byte{c19seed(1, 0, 0, 4), c19seed(2, 0xff, 0xff, 4), c19seed(3, 0x7f, 0xff, 2), c19seed(4, 0xff, 0xfe, 1)}[t.Choose(4, "state")]
	mc.Reinit(b)
	seen := make(map[appdash.ID]struct{}, n)
	for i := 0; i < n; i++ {
		id := appdash.NewSpanID(appdash.SpanID{}).Span
		if _, ok := seen[id]; ok {
			t.Fail("identifier %d repeats %v", i, id)
		}
		seen[id] = struct{}{}
	}
	mc.State(fmt.Sprintf("%x", b))
}

var c19extreme = []appdash.SpanID{
	hx.ID(1, 2, 3), hx.ID(1, 2, 0), {}, hx.ID(1<<64-1, 1<<64-1, 1<<64-1), hx.ID(1<<63, 0, 5), hx.ID(0, 1<<63, 0),
}

func c19relation(t *mc.T) {
	mc.Reinit([][]byte{nil, c19seed(7, 0xff, 0xff, 16)}[t.Choose(2, "state")])
	var made []appdash.SpanID
	fresh := map[appdash.ID]bool{}
	news := func(id appdash.ID, what string) {
		if fresh[id] {
			t.Fail("%s repeats %v", what, id)
		}
		fresh[id] = true
	}
	for i := 0; i < 5; i++ {
		k := t.Choose(1+len(c19extreme)+len(made), "parent")
		if k == 0 {
			r := appdash.NewRootSpanID()
			if r.Parent != 0 || !r.IsRoot() {
				t.Fail("the root span %v has a parent", r)
			}
			news(r.Trace, "the trace of a root span")
			news(r.Span, "a root span")
			made = append(made, r)
			continue
		}
		var p appdash.SpanID
		if k <= len(c19extreme) {
			p = c19extreme[k-1]
		} else {
			p = made[k-1-len(c19extreme)]
		}
		c := appdash.NewSpanID(p)
		if c.Trace != p.Trace || c.Parent != p.Span {
			t.Fail("the child of %v is %v", p, c)
		}
		news(c.Span, "a child span")
		made = append(made, c)
	}
	mc.State(fmt.Sprint(len(fresh)))
}

func c19conc(t *mc.T, per []int) {
	mc.Reinit([][]byte{nil, c19seed(7, 0xff, 0xff, 16), c19seed(9, 0x10, 0xff, 1), c19seed(9, 0x10, 0xfe, 1)}[t.Choose(4, "state")])
	if t.Choose(2, "odd position") == 1 {
		appdash.NewSpanID(appdash.SpanID{})
	}
	root := hx.ID(100, 200, 0)
	out := make([][]appdash.ID, len(per))
	var ts []*mc.T
	for i, n := range per {
		i, n := i, n
		ts = append(ts, t.Go(fmt.Sprint("generator", i), func() {
			for j := 0; j < n; j++ {
				if (i+j)%2 == 0 {
					c := appdash.NewSpanID(root)
					if c.Trace != root.Trace || c.Parent != root.Span {
						mc.Fail("the child of %v is %v", root, c)
					}
					out[i] = append(out[i], c.Span)
					continue
				}
				r := appdash.NewRootSpanID()
				if r.Parent != 0 {
					mc.Fail("the root %v has a parent", r)
				}
				out[i] = append(out[i], r.Trace, r.Span)
			}
		}))
	}
	t.Join(ts...)
	var all []appdash.ID
	for _, o := range out {
		all = append(all, o...)
	}
	c19distinct(t, all, "goroutines")
	mc.State(fmt.Sprint(all))
}
