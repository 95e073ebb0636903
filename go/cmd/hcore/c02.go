package main

import (
	"bytes"
	"fmt"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C02: annotations are complete, in order and isolated.
func init() {
	kit.Prop("C02", func(tier string) (us []*kit.Unit) {
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		for _, route := range []string{"memory", "local", "chunked", "multi", "limit", "recent", "chunked-multi"} {
			for shard := 0; shard < 3; shard++ {
				route, shard, depth := route, shard, depth
				if tier == "quick" && (route == "limit" || route == "recent" || route == "local") {
					depth--
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("%s/%d", route, shard),
					Rule: fmt.Sprintf("all sequences of %d operations on three spans of two traces through %q: collect with a fresh slice, with prefixes of a shared backing array, without annotations; overwrite or append to the shared array; flush; delete (shard %d of 3)", depth, route, shard),
					Body: func(t *mc.T) { c02(t, route, shard, depth) },
				})
			}
		}
		long := 6
		if tier == "thorough" {
			long = 7
		}
		for _, route := range []string{"memory", "chunked", "multi", "reload"} {
			for first := 0; first < 2; first++ {
				route, first, long := route, first, long
				if tier == "quick" && route != "memory" {
					long--
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("long/%s/%d", route, first),
					Rule: fmt.Sprintf("all sequences of %d collections of one or two annotations for three spans of two traces through %q (the first with %d), compared at the end", long, route, first+1),
					Body: func(t *mc.T) { c02long(t, route, first, long) },
				})
			}
		}
		return
	})
}

// c02long looks for spans that share memory as they grow.
func c02long(t *mc.T, route string, first, depth int) {
	ms := appdash.NewMemoryStore()
	stores := []*appdash.MemoryStore{ms}
	var c appdash.Collector = ms
	flush := func() {}
	switch route {
	case "chunked":
		cc := &appdash.ChunkedCollector{Collector: ms, MinInterval: time.Hour}
		c = cc
		flush = func() { must(t, cc.Flush(), "Flush") }
	case "multi":
		stores = append(stores, appdash.NewMemoryStore())
		c = appdash.MultiStore(ms, stores[1])
	}
	m := hx.NewM()
	n := 0
	collect := func(k int) {
		var as []appdash.Annotation
		for i := 0; i <= k%2; i++ {
			n++
			as = append(as, hx.A("k", fmt.Sprint(n)))
		}
		m.Collect(c02spans[k/2], as...)
		must(t, c.Collect(c02spans[k/2], as...), "Collect")
	}
	collect(first)
	for i := 1; i < depth; i++ {
		k := t.Choose(7, "collect")
		if k == 6 {
			flush()
			if route == "reload" {
				var b bytes.Buffer
				must(t, ms.Write(&b), "Write")
				ms = appdash.NewMemoryStore()
				_, err := ms.ReadFrom(&b)
				must(t, err, "ReadFrom")
				stores[0], c = ms, ms
			}
			continue
		}
		collect(k)
	}
	flush()
	for i, s := range stores {
		if msg := hx.CheckStore(s, m, 1, 2); msg != "" {
			t.Fail("store %d: %s", i, msg)
		}
	}
	mc.State(m.Canon())
}

var c02spans = []appdash.SpanID{hx.ID(1, 10, 0), hx.ID(1, 11, 10), hx.ID(2, 10, 0)}

func c02(t *mc.T, route string, shard, depth int) {
	ms := appdash.NewMemoryStore()
	stores := []*appdash.MemoryStore{ms}
	var c appdash.Collector = ms
	flush := func() {}
	chunk := func(under appdash.Collector) appdash.Collector {
		cc := &appdash.ChunkedCollector{Collector: under, MinInterval: time.Hour}
		flush = func() { must(t, cc.Flush(), "Flush") }
		return cc
	}
	second := func() appdash.Store {
		stores = append(stores, appdash.NewMemoryStore())
		return appdash.MultiStore(ms, stores[1])
	}
	switch route {
	case "local":
		c = appdash.NewLocalCollector(ms)
	case "chunked":
		c = chunk(appdash.NewLocalCollector(ms))
	case "multi":
		c = second()
	case "chunked-multi":
		c = chunk(second())
	case "limit":
		c = &appdash.LimitStore{Max: 5, DeleteStore: ms}
	case "recent":
		c = &appdash.RecentStore{MinEvictAge: time.Hour, DeleteStore: ms}
	}
	queued := route == "chunked" || route == "chunked-multi"
	m := hx.NewM()
	n := 0
	name := func() string { n++; return fmt.Sprintf("v%d", n) }
	// The slice that the caller keeps using.
	back := make([]appdash.Annotation, 4, 8)
	for i := range back {
		back[i] = hx.A("b"+fmt.Sprint(i), "0")
	}
	collect := func(id appdash.SpanID, as []appdash.Annotation) {
		m.Collect(id, as...)
		must(t, c.Collect(id, as...), "Collect")
	}
	check := func() {
		for i, s := range stores {
			if msg := hx.CheckStore(s, m, 1, 2); msg != "" {
				t.Fail("store %d: %s", i, msg)
			}
		}
		mc.State(m.Canon())
	}
	for i := 0; i < depth; i++ {
		var op int
		if i == 0 {
			op = shard * 5
			op += t.Choose(5, "operation")
		} else {
			op = t.Choose(20, "operation")
		}
		switch {
		case op < 15:
			id := c02spans[op/5]
			switch op % 5 {
			case 0:
				collect(id, []appdash.Annotation{hx.A("f", name())})
			case 1:
				collect(id, back[:1])
			case 2:
				collect(id, back[1:3])
			case 3:
				collect(id, back)
			case 4:
				collect(id, nil)
			}
		case op == 15: // overwrite elements (not the bytes of their values)
			for j := range back {
				back[j] = hx.A("w", name())
			}
		case op == 16: // append within the capacity
			_ = append(back[:1], hx.A("x", name()), hx.A("y", name()))
		case op == 17:
			full := append(back, hx.A("z", name()))
			full[0] = hx.A("q", name())
		case op == 18:
			flush()
			check()
		case op == 19:
			if queued {
				flush()
			}
			if route == "limit" || route == "recent" || route == "local" {
				break
			}
			for _, s := range stores {
				must(t, s.Delete(1), "Delete")
			}
			m.Delete(1)
		}
		if !queued {
			check()
		}
	}
	flush()
	check()
}
