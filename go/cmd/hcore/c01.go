package main

import (
	"fmt"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C01: the tree depends only on the set of spans that have arrived.
func init() {
	kit.Prop("C01", func(tier string) (us []*kit.Unit) {
		n := 4
		if tier == "thorough" {
			n = 5
		}
		for k := 1; k <= n+1; k++ {
			for shard := 0; shard < 2; shard++ {
				k, shard := k, shard
				if shard == 1 && (k == 1 || k > 4 && tier == "quick") {
					continue
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("order/%dspans/root=%v", k, shard == 0),
					Rule: fmt.Sprintf("all parent-acyclic sets of %d spans (parents among the others or never collected; with the root: %v) in all orders of arrival; store compared after every step", k, shard == 0),
					Opt:  mc.Options{},
					Body: func(t *mc.T) { c01(t, k, shard == 0, false) },
				})
			}
		}
		for k := 2; k <= n; k++ {
			for what := 0; what < 4; what++ {
				k, what := k, what
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("extra/%dspans/%d", k, what),
					Rule: fmt.Sprintf("as order/%dspans, with a second trace of equal span IDs and one extra event (%s) at every position", k,
						[]string{"a span collected again", "deletion of the trace", "deletion of the other trace", "re-collection of everything after a deletion"}[what]),
					Body: func(t *mc.T) { c01extra(t, k, what) },
				})
			}
		}
		return
	})
}

// span IDs whose numerical order is not that of the tree
var c01ids = []uint64{0x50, 0xf000000000000001, 0x7, 0x33, 0x2a, 0x8000000000000000, 0x1}

const c01absent = 0x999

// c01spans chooses a set of n spans of trace tr; the first one is the root if withRoot.
func c01spans(t *mc.T, tr uint64, n int, withRoot bool) []appdash.SpanID {
	par := make([]int, n) // index of the parent, n: absent, -1: root
	for i := range par {
		if i == 0 && withRoot {
			par[i] = -1
			continue
		}
		c := t.Choose(n, "parent") // all but itself, or absent
		if c >= i {
			c++
		}
		par[i] = c
	}
	for i := range par { // reject cycles
		seen := 0
		for j := i; j >= 0 && j < n; j = par[j] {
			if seen++; seen > n {
				return nil
			}
		}
	}
	var r []appdash.SpanID
	for i, p := range par {
		var pid uint64
		switch {
		case p == n:
			pid = c01absent
		case p >= 0:
			pid = c01ids[p]
		}
		r = append(r, hx.ID(tr, c01ids[i], pid))
	}
	return r
}

func must(t *mc.T, err error, what string) {
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
}

func c01(t *mc.T, n int, withRoot, extra bool) {
	spans := c01spans(t, 1, n, withRoot)
	if spans == nil {
		return
	}
	ms := appdash.NewMemoryStore()
	m := hx.NewM()
	left := append([]appdash.SpanID(nil), spans...)
	for step := 0; len(left) > 0; step++ {
		i := t.Choose(len(left), "next span")
		id := left[i]
		left = append(left[:i:i], left[i+1:]...)
		a := hx.A("k", fmt.Sprint(step))
		must(t, ms.Collect(id, a), "Collect")
		m.Collect(id, a)
		c01check(t, ms, m)
	}
}

func c01check(t *mc.T, ms *appdash.MemoryStore, m *hx.StoreM) {
	if msg := hx.CheckStore(ms, m, 1, 2, 3); msg != "" {
		t.Fail("%s\nmodel: %s", msg, m.Canon())
	}
	mc.State(m.Canon())
}

func c01extra(t *mc.T, n, what int) {
	spans := c01spans(t, 1, n, true)
	if spans == nil {
		return
	}
	ms := appdash.NewMemoryStore()
	m := hx.NewM()
	collect := func(id appdash.SpanID, as ...appdash.Annotation) {
		must(t, ms.Collect(id, as...), "Collect")
		m.Collect(id, as...)
		c01check(t, ms, m)
	}
	del := func(ids ...appdash.ID) {
		must(t, ms.Delete(ids...), "Delete")
		m.Delete(ids...)
		c01check(t, ms, m)
	}
	// The other trace has the same span IDs and other parents.
	other := []appdash.SpanID{hx.ID(2, c01ids[1], 0), hx.ID(2, c01ids[0], c01ids[1])}
	collect(other[1], hx.A("o", "1"))
	perm := append([]appdash.SpanID(nil), spans...)
	at := t.Choose(n+1, "position of the extra event")
	var done []appdash.SpanID
	for step := 0; step <= n; step++ {
		if step == at {
			switch what {
			case 0:
				if len(done) > 0 {
					id := done[t.Choose(len(done), "which again")]
					collect(id, hx.A("again", "x"))
					collect(id)
				}
			case 1:
				del(1)
				// 3 is unknown, and deleting twice is nothing
				collect(hx.ID(1, c01ids[0], 0), hx.A("afresh", "x"))
				del(3, 1)
			case 2:
				del(3, 2)
			case 3:
				del(2, 1)
				for i := range done {
					collect(done[len(done)-1-i], hx.A("new", fmt.Sprint(i)))
				}
			}
		}
		if step == n {
			break
		}
		i := t.Choose(len(perm), "next span")
		id := perm[i]
		perm = append(perm[:i:i], perm[i+1:]...)
		done = append(done, id)
		if step%2 == 0 {
			collect(id, hx.A("k", fmt.Sprint(step)))
		} else {
			collect(id)
			collect(id, hx.A("k", fmt.Sprint(step)))
		}
		if step == 1 {
			collect(other[0], hx.A("o", "2"))
		}
	}
}
