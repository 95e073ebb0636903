package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
	vlog "verif/shim/log"
)

// badEvent cannot be marshalled.
type badEvent struct{ err error }

func (badEvent) Schema() string                               { return "bad" }
func (b badEvent) MarshalEvent() (appdash.Annotations, error) { return nil, b.err }
func (badEvent) UnmarshalEvent(appdash.Annotations) (appdash.Event, error) {
	return nil, errors.New("bad")
}

// selfEvent marshals itself, with an error-free number of annotations.
type selfEvent struct{ n int }

func (selfEvent) Schema() string { return "self" }
func (e selfEvent) MarshalEvent() (as appdash.Annotations, err error) {
	for i := 0; i < e.n; i++ {
		as = append(as, hx.A(fmt.Sprintf("self%d", i), fmt.Sprint(e.n)))
	}
	return
}

// structEvent is flattened.
type structEvent struct {
	A string
	B struct{ C int }
}

func (structEvent) Schema() string { return "struct" }

// c15call is a call of the collector of a recorder.
type c15call struct {
	id     appdash.SpanID
	anns   string
	raw    []appdash.Annotation
	report bool // the report of an error, not recorded data
	err    error
}

// c15collector fails when asked to.
type c15collector struct{ patterns bool }

func (c c15collector) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	r := &c15call{id: id, anns: hx.Anns(as), raw: as}
	for _, a := range as {
		if a.Key == "Msg" && strings.HasPrefix(string(a.Value), "Recorder.") {
			r.report = true
		}
	}
	if c.patterns && !r.report && mc.Choose(2, "the collector fails") == 1 {
		r.err = fmt.Errorf("collector failure %d", len(mc.Records()))
	}
	if c.patterns && r.report && mc.Choose(2, "the collector fails on the report") == 1 {
		r.err = errors.New("failure of a report") // not reported again
	}
	mc.Rec(r)
	return r.err
}

func c15calls() (l []*c15call) {
	for _, r := range mc.Records() {
		if c, ok := r.(*c15call); ok && !c.report {
			l = append(l, c)
		}
	}
	return
}

// recM is a recorder of the model.
type recM struct {
	r        *appdash.Recorder
	id       appdash.SpanID
	anns     []appdash.Annotation
	finished bool
	errs     []string
	logger   *strings.Builder
	taken    []taken
}

// taken is a result of Errors and what it said at the time.
type taken struct {
	es  []error
	was string
}

// C15: recorders.
func init() {
	kit.Prop("C15", func(tier string) (us []*kit.Unit) {
		for f := 0; f < c15ops; f++ {
			for _, logger := range []bool{false, true} {
				f, logger := f, logger
				depth := 5
				if tier == "thorough" {
					depth++
				}
				if logger {
					depth--
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("sequential/logger=%v/first=%d", logger, f),
					Rule: fmt.Sprintf("all sequences of %d of: name, message, log, struct event, self-marshalling event of 0-2 annotations, unmarshallable event, raw annotations, finish, take errors, make a child and use the parent or the child from then on (first fixed), with every pattern of failing collections, logger set: %v", depth, logger),
					Opt:  mc.Options{NoPreempt: true},
					Body: func(t *mc.T) { c15(t, logger, f, depth) },
				})
			}
		}
		b := 2
		if tier == "thorough" {
			b = 3
		}
		for _, race := range []bool{false, true} {
			us = append(us, &kit.Unit{
				Name: "errors/concurrent", Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of two goroutines whose raw annotations fail and one that takes errors twice: every error is returned exactly once", b),
				Opt:  mc.Options{Bound: b},
				Body: c15errs,
			}, &kit.Unit{
				Name: "children/concurrent", Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of goroutines that make a child each of one recorder, record on it and finish it, into one memory store, while the parent records and finishes", b),
				Opt:  mc.Options{Bound: b},
				Body: c15children,
			})
		}
		return
	})
}

const c15ops = 13

var c15time = time.Date(2020, 5, 4, 3, 2, 1, 123456789, time.UTC)

func c15(t *mc.T, logger bool, first, depth int) {
	coll := c15collector{true}
	newM := func(r *appdash.Recorder) *recM {
		m := &recM{r: r, id: r.SpanID}
		if logger {
			m.logger = &strings.Builder{}
			r.Logger = vlog.New(m.logger, "", 0)
		}
		return m
	}
	all := []*recM{newM(appdash.NewRecorder(hx.ID(5, 6, 7), coll))}
	cur := 0
	ncalls := 0
	var kept []*c15call
	// expect checks that exactly one more call was made, and takes its error.
	expect := func(m *recM, as []appdash.Annotation, what string) {
		l := c15calls()
		if len(l) != ncalls+1 {
			t.Fail("%s: %d calls of the collector instead of one", what, len(l)-ncalls)
		}
		c := l[ncalls]
		ncalls++
		kept = append(kept, c)
		if c.id != m.id {
			t.Fail("%s: collected for span %v instead of %v", what, c.id, m.id)
		}
		if w := hx.Anns(as); c.anns != w {
			t.Fail("%s: collected %s instead of %s", what, c.anns, w)
		}
		if c.err != nil {
			m.errs = append(m.errs, c.err.Error())
		}
	}
	for i := 0; i < depth; i++ {
		op := first
		if i > 0 {
			op = t.Choose(c15ops, "operation")
			if depth > 4 && (op == 1 || op == 2) {
				return // like op 0, explored in the units of less depth
			}
		}
		m := all[cur]
		r := m.r
		event := func(e appdash.Event) {
			as, err := appdash.MarshalEvent(e)
			must(t, err, "MarshalEvent")
			if !m.finished {
				m.anns = append(m.anns, as...)
			}
		}
		switch op {
		case 0:
			r.Name("n")
			event(appdash.SpanName("n"))
		case 1:
			r.Msg("hello")
			event(appdash.Msg("hello"))
		case 2:
			r.Log("a log")
			event(appdash.Log("a log"))
		case 3:
			r.LogWithTimestamp("then", c15time)
			event(appdash.LogWithTimestamp("then", c15time))
		case 4:
			e := structEvent{A: fmt.Sprint(i)}
			e.B.C = i
			r.Event(e)
			event(e)
		case 5:
			e := selfEvent{t.Choose(3, "annotations")}
			r.Event(e)
			event(e)
		case 6:
			e := fmt.Errorf("unmarshallable %d", i)
			r.Event(badEvent{e})
			m.errs = append(m.errs, e.Error())
		case 7:
			as := []appdash.Annotation{hx.A("raw", fmt.Sprint(i)), hx.A("", "")}
			r.Annotation(as...)
			expect(m, as, "Annotation")
		case 8:
			r.Finish()
			if m.finished {
				m.errs = append(m.errs, "multiple")
			} else {
				m.finished = true
				expect(m, m.anns, "Finish")
			}
		case 9:
			c15take(t, m)
		case 10, 11:
			c := r.Child()
			if c.SpanID.Trace != m.id.Trace || c.SpanID.Parent != m.id.Span {
				t.Fail("the child of %v has span %v", m.id, c.SpanID)
			}
			for _, o := range all {
				if o.id.Span == c.SpanID.Span {
					t.Fail("the child has the span ID of another: %v", o.id)
				}
			}
			all = append(all, newM(c))
			if op == 10 {
				cur = len(all) - 1
			}
		case 12:
			cur = (cur + 1) % len(all)
		}
		if n := len(c15calls()); n != ncalls {
			t.Fail("operation %d: %d calls of the collector nobody asked for", op, n-ncalls)
		}
		for _, o := range all {
			if o.r.SpanID != o.id {
				t.Fail("the span of the recorder has changed from %v to %v", o.id, o.r.SpanID)
			}
		}
	}
	st := ""
	for _, m := range all {
		c15take(t, m)
		c15take(t, m)
		for _, k := range m.taken {
			if now := fmt.Sprint(k.es); now != k.was {
				t.Fail("errors that were returned have changed: %s were %s", now, k.was)
			}
		}
		st += fmt.Sprint(m.id.Parent != 7, hx.Anns(m.anns), m.finished, ";")
	}
	for _, c := range kept {
		if a := hx.Anns(c.raw); a != c.anns {
			t.Fail("annotations that were collected have changed later: %s were %s", a, c.anns)
		}
	}
	mc.State(st)
}

// c15take takes the errors.
func c15take(t *mc.T, m *recM) {
	var got []string
	es := m.r.Errors()
	for _, e := range es {
		got = append(got, e.Error())
	}
	if len(es) > 0 {
		m.taken = append(m.taken, taken{es, fmt.Sprint(es)})
	}
	if m.logger != nil {
		if len(got) > 0 {
			t.Fail("a logger is set and Errors gives %q", got)
		}
		got = strings.Split(m.logger.String(), "\n")
		got = got[:len(got)-1]
		m.logger.Reset()
	}
	if len(got) != len(m.errs) {
		t.Fail("errors %q instead of %q", got, m.errs)
	}
	for i, w := range m.errs {
		if w == "multiple" {
			if !strings.Contains(got[i], "Finish") {
				t.Fail("a second Finish is reported as %q", got[i])
			}
		} else if m.logger == nil && got[i] != w || !strings.Contains(got[i], w) {
			t.Fail("errors %q instead of %q", got, m.errs)
		}
	}
	m.errs = nil
}

// numbered fails with numbered errors.
type numbered struct{}

func (numbered) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	for _, a := range as {
		if a.Key == "raw" {
			return errors.New(string(a.Value))
		}
	}
	return nil
}

func c15errs(t *mc.T) {
	r := appdash.NewRecorder(hx.ID(1, 2, 0), numbered{})
	var got []string
	a := t.Go("a", func() {
		r.Annotation(hx.A("raw", "1"))
		r.Annotation(hx.A("raw", "2"))
	})
	b := t.Go("b", func() { r.Annotation(hx.A("raw", "3")) })
	c := t.Go("c", func() {
		for i := 0; i < 2; i++ {
			for _, e := range r.Errors() {
				got = append(got, e.Error())
			}
		}
	})
	t.Join(a, b, c)
	n := len(got)
	for _, e := range r.Errors() {
		got = append(got, e.Error())
	}
	o := strings.Join(got, " ")
	sort.Strings(got)
	if g := strings.Join(got, " "); g != "1 2 3" {
		t.Fail("errors 1, 2 and 3 were met, returned were %q", g)
	}
	mc.State(fmt.Sprint(n, o))
}

func c15children(t *mc.T) {
	ms := appdash.NewMemoryStore()
	r := appdash.NewRecorder(hx.ID(1, 2, 0), appdash.NewLocalCollector(ms))
	var ids [2]appdash.SpanID
	var ths []*mc.T
	for i := range ids {
		i := i
		ths = append(ths, t.Go("child", func() {
			c := r.Child()
			ids[i] = c.SpanID
			c.Msg(fmt.Sprint("child ", i))
			c.Finish()
			if e := c.Errors(); e != nil {
				t.Fail("%v", e)
			}
		}))
	}
	r.Msg("parent")
	r.Finish()
	t.Join(ths...)
	if ids[0].Span == ids[1].Span {
		t.Fail("both children have span %v", ids[0])
	}
	tr, err := ms.Trace(1)
	must(t, err, "Trace")
	if tr.Span.ID != r.SpanID || len(tr.Sub) != 2 {
		t.Fail("the trace is %v", tr)
	}
	for i, id := range ids {
		s := tr.FindSpan(id.Span)
		if s == nil || s.Span.ID != id || id.Parent != 2 || id.Trace != 1 {
			t.Fail("the span of child %d is %v", i, s)
		}
		as, _ := appdash.MarshalEvent(appdash.Msg(fmt.Sprint("child ", i)))
		if hx.Anns(s.Annotations) != hx.Anns(as) {
			t.Fail("the span of child %d holds %v", i, s.Annotations)
		}
	}
}
