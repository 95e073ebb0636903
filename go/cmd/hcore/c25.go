package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C25: several stores behave like one; listings honour their filter.
func init() {
	kit.Prop("C25", func(tier string) (us []*kit.Unit) {
		depth, big, n3, single := 3, 4, 2, 2
		if tier == "thorough" {
			depth, big, n3, single = 4, 5, 3, 3
		}
		for n := 0; n <= 4; n++ {
			n := n
			d := depth
			if n == 4 {
				d--
			}
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("store/%d", n),
				Rule: fmt.Sprintf("all histories of %d operations (collect with 0-2 annotations, read one of two traces) on a multi-store of %d stores, each of which succeeds, lacks the trace or fails in one of two ways at every call", d, n),
				Body: func(t *mc.T) { c25store(t, n, d, false) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "store/nested",
			Rule: "as store/3, with the last two stores in a multi-store of their own",
			Body: func(t *mc.T) { c25store(t, 3, depth, true) },
		})
		for n := 0; n <= 3; n++ {
			n := n
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("queryer/%d", n),
				Rule: fmt.Sprintf("one or two listings over %d queryers each of which gives any of 12 lists of versions of 3 traces or fails, with and without a filter", n),
				Body: func(t *mc.T) { c25query(t, n, single) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "memory/filter",
			Rule: fmt.Sprintf("memory stores with every subset of %d traces, listed with every filter of up to 3 IDs (repeated and unknown ones included) or none, in all orders of iteration", big),
			Opt:  mc.Options{MapOrder: 4, MapFree: true},
			Body: func(t *mc.T) { c25filter(t, big) },
		}, &kit.Unit{
			Name: "memory/multi",
			Rule: fmt.Sprintf("%d memory stores holding every combination of subsets of 3 traces, each in its own version, listed and read through all of them, with every filter of up to 2 IDs; collected into and listed again", n3),
			Opt:  mc.Options{},
			Body: func(t *mc.T) { c25multi(t, n3, 3) },
		}, &kit.Unit{
			Name: "memory/multi/orders",
			Rule: "two memory stores holding every combination of subsets of 2 traces, with up to 2 listings of a store in another order",
			Opt:  mc.Options{MapOrder: 3, Bound: 2},
			Body: func(t *mc.T) { c25multi(t, 2, 2) },
		})
		return
	})
}

var errC25 = []error{errors.New("first kind of failure"), errors.New("second kind of failure")}

// c25fake is a store that answers as the explorer chooses.
type c25fake struct {
	i   int
	log *[]string
	res *[]c25res
}

type c25res struct {
	i   int
	tr  *appdash.Trace
	err error
}

func (f c25fake) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	*f.log = append(*f.log, fmt.Sprintf("%d collect %v %s", f.i, id, hx.Anns(as)))
	var err error
	if c := mc.Choose(3, "collect"); c > 0 {
		err = errC25[c-1]
	}
	*f.res = append(*f.res, c25res{f.i, nil, err})
	return err
}

func (f c25fake) Trace(id appdash.ID) (*appdash.Trace, error) {
	*f.log = append(*f.log, fmt.Sprintf("%d trace %v", f.i, id))
	r := c25res{i: f.i}
	switch mc.Choose(4, "trace") {
	case 0:
		r.err = appdash.ErrTraceNotFound
	case 1:
		r.tr = c25version(id, f.i)
	case 2:
		r.err = errC25[0]
	case 3:
		r.err = errC25[1]
	}
	*f.res = append(*f.res, r)
	return r.tr, r.err
}

// c25version is the version of a trace that store i has.
func c25version(id appdash.ID, i int) *appdash.Trace {
	return &appdash.Trace{Span: appdash.Span{ID: hx.ID(uint64(id), 1, 0), Annotations: appdash.Annotations{hx.A("store", fmt.Sprint(i))}}}
}

func c25store(t *mc.T, n, depth int, nested bool) {
	var log []string
	var res []c25res
	var ss []appdash.Store
	for i := 0; i < n; i++ {
		ss = append(ss, c25fake{i, &log, &res})
	}
	var m appdash.Store
	if nested {
		m = appdash.MultiStore(ss[0], appdash.MultiStore(ss[1:]...))
	} else {
		m = appdash.MultiStore(ss...)
	}
	for step := 0; step < depth; step++ {
		log, res = nil, nil
		op := t.Choose(5, "operation")
		if op < 3 {
			id := hx.ID(1, uint64(step+1), uint64(op))
			as := []appdash.Annotation{hx.A("a", fmt.Sprint(step)), hx.A("b", "")}[:op]
			err := m.Collect(id, as...)
			var want error
			for i, r := range res {
				if want != nil {
					t.Fail("a collection went on after a failure: %q", log)
				}
				if w := fmt.Sprintf("%d collect %v %s", i, id, hx.Anns(as)); log[i] != w {
					t.Fail("call %d of the stores is %q instead of %q", i, log[i], w)
				}
				want = r.err
			}
			if err != want {
				t.Fail("a collection gives %v, the stores %v: %q", err, want, log)
			}
			if want == nil && len(res) != n {
				t.Fail("%d of %d stores got the span: %q", len(res), n, log)
			}
			continue
		}
		id := appdash.ID(op)
		tr, err := m.Trace(id)
		want := c25res{err: appdash.ErrTraceNotFound}
		asked := map[int]c25res{}
		for i, r := range res {
			asked[r.i] = r
			if log[i] != fmt.Sprintf("%d trace %v", r.i, id) {
				t.Fail("reading trace %v: %q", id, log)
			}
		}
		for i := 0; i < n; i++ {
			r, ok := asked[i]
			if !ok {
				t.Fail("store %d was not asked for trace %v: %q", i, id, log)
			}
			if r.err != appdash.ErrTraceNotFound {
				want = r
				break
			}
		}
		if err != want.err || tr != want.tr {
			t.Fail("reading trace %v gives %v, %v instead of %v, %v (%q)", id, tr, err, want.tr, want.err, log)
		}
	}
	mc.State(strings.Join(log, ";"))
}

// c25lists are the lists a queryer may give.
var c25lists = [][]appdash.ID{{}, {1}, {2}, {3}, {1, 2}, {2, 1}, {1, 3}, {3, 2}, {1, 2, 3}, {3, 2, 1}, {2, 3, 1}, {2, 2}}

type c25queryer struct {
	i   int
	log *[]int
	out *[]c25list
}

type c25list struct {
	i   int
	ts  []*appdash.Trace
	err error
}

var c25opts appdash.TracesOpts

func (q c25queryer) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	if fmt.Sprint(o) != fmt.Sprint(c25opts) {
		mc.Fail("queryer %d gets options %v instead of %v", q.i, o, c25opts)
	}
	l := c25list{i: q.i}
	c := mc.Choose(len(c25lists)+2, "list")
	switch {
	case c < len(c25lists):
		for _, id := range c25lists[c] {
			l.ts = append(l.ts, c25version(id, q.i))
		}
	default:
		l.err = errC25[c-len(c25lists)]
		if c == len(c25lists) {
			l.ts = append(l.ts, c25version(1, q.i)) // not to be believed
		}
	}
	*q.out = append(*q.out, l)
	return l.ts, l.err
}

func c25query(t *mc.T, n, single int) {
	var out []c25list
	var log []int
	var qs []appdash.Queryer
	for i := 0; i < n; i++ {
		qs = append(qs, c25queryer{i, &log, &out})
	}
	m := appdash.MultiQueryer(qs...)
	st := ""
	rounds := 2
	if n >= single {
		rounds = 1
	}
	for round := 0; round < rounds; round++ {
		out = nil
		c25opts = [...]appdash.TracesOpts{{}, {TraceIDs: []appdash.ID{3, 1}},
			{Timespan: appdash.Timespan{S: time.Unix(1, 0), E: time.Unix(2, 0)}, TraceIDs: []appdash.ID{2}}}[t.Choose(3, "options")]
		got, err := m.Traces(c25opts)
		lists := map[int]c25list{}
		for _, l := range out {
			lists[l.i] = l
		}
		var want []*appdash.Trace
		var wantErr error
		seen := map[appdash.ID]bool{}
		for i := 0; i < n; i++ {
			l, ok := lists[i]
			if !ok {
				t.Fail("queryer %d was not asked", i)
			}
			if l.err != nil {
				wantErr = l.err
				break
			}
			for _, tr := range l.ts {
				if !seen[tr.ID.Trace] {
					seen[tr.ID.Trace] = true
					want = append(want, tr)
				}
			}
		}
		if err != wantErr {
			t.Fail("listing gives error %v instead of %v", err, wantErr)
		}
		if err != nil {
			continue
		}
		c25same(t, got, want)
		for _, tr := range got {
			st += fmt.Sprint(tr.ID.Trace, hx.Anns(tr.Annotations))
		}
	}
	mc.State(st)
}

// c25same compares two lists, in any order.
func c25same(t *mc.T, got, want []*appdash.Trace) {
	have := map[appdash.ID]string{}
	for _, tr := range got {
		if _, dup := have[tr.ID.Trace]; dup {
			t.Fail("trace %v is listed twice", tr.ID.Trace)
		}
		have[tr.ID.Trace] = hx.Tree(tr)
	}
	for _, tr := range want {
		g, ok := have[tr.ID.Trace]
		if !ok {
			t.Fail("trace %v is not listed", tr.ID.Trace)
		}
		if w := hx.Tree(tr); g != w {
			t.Fail("trace %v is listed as %s instead of %s", tr.ID.Trace, g, w)
		}
	}
	if len(have) != len(want) {
		t.Fail("%d traces are listed instead of %d", len(have), len(want))
	}
}

// c25fill puts trace id into a store and its model, with a child and a stray span, in the version of store i.
func c25fill(t *mc.T, ms *appdash.MemoryStore, m *hx.StoreM, id, i int) {
	for j, s := range []appdash.SpanID{hx.ID(uint64(id), 11, 10), hx.ID(uint64(id), 10, 0), hx.ID(uint64(id), 12, 99)} {
		a := hx.A("store", fmt.Sprint(i, j))
		must(t, ms.Collect(s, a), "Collect")
		m.Collect(s, a)
	}
}

// c25choose chooses a filter of up to n IDs; nil is none.
func c25choose(t *mc.T, n int, ids ...appdash.ID) (l []appdash.ID) {
	for k := t.Choose(n+1, "IDs in the filter"); k > 0; k-- {
		l = append(l, ids[t.Choose(len(ids), "ID")])
	}
	return
}

func c25filter(t *mc.T, big int) {
	ms, m := appdash.NewMemoryStore(), hx.NewM()
	for id := 1; id <= big; id++ {
		if t.Choose(2, "trace") == 1 {
			c25fill(t, ms, m, id, 0)
		}
	}
	f := c25choose(t, 3, 1, 2, 4, 9)
	got, err := ms.Traces(appdash.TracesOpts{TraceIDs: f})
	must(t, err, "Traces")
	if msg := hx.CheckList(got, c25restrict(m, f)); msg != "" {
		t.Fail("filter %v: %s", f, msg)
	}
	mc.State(fmt.Sprint(f, m.Canon()))
}

func c25restrict(m *hx.StoreM, f []appdash.ID) *hx.StoreM {
	r := hx.NewM()
	for id, tm := range m.T {
		in := len(f) == 0
		for _, x := range f {
			in = in || x == id
		}
		if in {
			r.T[id] = tm
		}
	}
	return r
}

func c25multi(t *mc.T, n, traces int) {
	var stores []*appdash.MemoryStore
	var models []*hx.StoreM
	var ss []appdash.Store
	var qs []appdash.Queryer
	for i := 0; i < n; i++ {
		ms, m := appdash.NewMemoryStore(), hx.NewM()
		for id := 1; id <= traces; id++ {
			if t.Choose(2, "trace") == 1 {
				c25fill(t, ms, m, id, i)
			}
		}
		stores, models = append(stores, ms), append(models, m)
		ss, qs = append(ss, ms), append(qs, ms)
	}
	store, queryer := appdash.MultiStore(ss...), appdash.MultiQueryer(qs...)
	check := func() {
		first := hx.NewM()
		for i := n - 1; i >= 0; i-- {
			for id, tm := range models[i].T {
				first.T[id] = tm
			}
		}
		for id := appdash.ID(1); id <= 4; id++ {
			if msg := hx.CheckOne(store.Trace, first, id); msg != "" {
				t.Fail("%s", msg)
			}
		}
		f := c25choose(t, 2, 1, 2, 9)
		got, err := queryer.Traces(appdash.TracesOpts{TraceIDs: f})
		must(t, err, "Traces")
		if msg := hx.CheckList(got, c25restrict(first, f)); msg != "" {
			t.Fail("filter %v: %s", f, msg)
		}
	}
	check()
	id := hx.ID(uint64(1+t.Choose(2, "collect")*3), 20, 10)
	must(t, store.Collect(id, hx.A("new", "x")), "Collect")
	st := ""
	for i := range models {
		models[i].Collect(id, hx.A("new", "x"))
		if msg := hx.CheckStore(stores[i], models[i], 1, 2, 3, 4); msg != "" {
			t.Fail("store %d: %s", i, msg)
		}
		st += models[i].Canon() + "|"
	}
	check()
	mc.State(st)
}
