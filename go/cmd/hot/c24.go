package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math"
	"sort"
	"strings"
	"time"

	basictracer "github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"
	"sourcegraph.com/sourcegraph/appdash"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// call is a call of Collect.
type call struct {
	id   appdash.SpanID
	anns []appdash.Annotation
	kept []appdash.Annotation // as passed
	err  error
}

// coll is a collector whose calls fail as chosen.
type coll struct {
	points bool
	fail   func(n int) bool
}

func (c coll) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if c.points {
		mc.Point("collect")
	}
	g := &call{id: id, kept: as}
	for _, a := range as {
		g.anns = append(g.anns, appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)})
	}
	if c.fail != nil {
		if n := len(calls()); c.fail(n) {
			g.err = fmt.Errorf("failure %d of %v", n, id.Span)
		}
	}
	mc.Rec(g)
	return g.err
}

// line is a line that the logger got.
type line struct{ s string }

type lines struct{}

func (lines) Write(p []byte) (int, error) {
	mc.Rec(&line{string(p)})
	return len(p), nil
}

func logger() *log.Logger { return log.New(lines{}, "", 0) }

func calls() (l []*call) {
	for _, r := range mc.Records() {
		if c, ok := r.(*call); ok {
			l = append(l, c)
		}
	}
	return
}

func logged() (l []string) {
	for _, r := range mc.Records() {
		if c, ok := r.(*line); ok {
			l = append(l, c.s)
		}
	}
	return
}

// expect is what a raw span has to become.
func expect(sp basictracer.RawSpan) (id appdash.SpanID, want []string) {
	id = hx.ID(sp.Context.TraceID, sp.Context.SpanID, sp.ParentSpanID)
	want = append(want, fmt.Sprintf("name %q", sp.Operation))
	for _, l := range sp.Logs {
		want = append(want, fmt.Sprintf("log %q at %d", logText(l.Fields), l.Timestamp.UnixNano()))
	}
	for k, v := range sp.Tags {
		want = append(want, fmt.Sprintf("%q=%q", k, fmt.Sprintf("%+v", v)))
	}
	for k, v := range sp.Context.Baggage {
		want = append(want, fmt.Sprintf("%q=%q", k, v))
	}
	want = append(want, fmt.Sprintf("from %d to %d", sp.Start.UnixNano(), sp.Start.Add(sp.Duration).UnixNano()))
	sort.Strings(want)
	return
}

// logText is the text of a log entry, canonical if it is a JSON object.
func logText(fs []otlog.Field) string {
	m := map[string]string{}
	for _, f := range fs {
		collect(m, f)
	}
	if e, ok := m["event"]; ok && len(m) == 1 {
		return e
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func collect(m map[string]string, f otlog.Field) {
	switch v := f.Value().(type) {
	case nil:
		if f.Key() != "" {
			m[f.Key()] = "<nil>"
		}
	case otlog.LazyLogger:
		v(lazy{m})
	case float32, float64:
		m[f.Key()] = fmt.Sprintf("%v", v)
	default:
		m[f.Key()] = fmt.Sprintf("%+v", v)
	}
}

type lazy struct{ m map[string]string }

func (l lazy) EmitString(k, v string)            { l.m[k] = v }
func (l lazy) EmitBool(k string, v bool)         { l.m[k] = fmt.Sprint(v) }
func (l lazy) EmitInt(k string, v int)           { l.m[k] = fmt.Sprint(v) }
func (l lazy) EmitInt32(k string, v int32)       { l.m[k] = fmt.Sprint(v) }
func (l lazy) EmitInt64(k string, v int64)       { l.m[k] = fmt.Sprint(v) }
func (l lazy) EmitUint32(k string, v uint32)     { l.m[k] = fmt.Sprint(v) }
func (l lazy) EmitUint64(k string, v uint64)     { l.m[k] = fmt.Sprint(v) }
func (l lazy) EmitFloat32(k string, v float32)   { l.m[k] = fmt.Sprintf("%v", v) }
func (l lazy) EmitFloat64(k string, v float64)   { l.m[k] = fmt.Sprintf("%v", v) }
func (l lazy) EmitObject(k string, v any)        { l.m[k] = fmt.Sprintf("%+v", v) }
func (l lazy) EmitLazyLogger(v otlog.LazyLogger) { v(l) }

// digest says what annotations of a span mean, in the terms of expect; reports are the messages of failures.
func digest(t *mc.T, as []appdash.Annotation) (got []string) {
	var msgs, times []string
	var span appdash.Annotations
	for _, a := range as {
		k, v := a.Key, string(a.Value)
		switch {
		case strings.HasPrefix(k, appdash.SchemaPrefix):
			if k == appdash.SchemaPrefix+"Timespan" || k == appdash.SchemaPrefix+"timespan" {
				span = append(span, a)
			}
		case k == "Name":
			got = append(got, fmt.Sprintf("name %q", v))
		case k == "Msg":
			msgs = append(msgs, v)
		case k == "Time":
			times = append(times, v)
		case k == "Span.Start" || k == "Span.End":
			span = append(span, a)
		default:
			got = append(got, fmt.Sprintf("%q=%q", k, v))
		}
	}
	if len(msgs) != len(times) {
		t.Fail("%d log messages but %d times: %s", len(msgs), len(times), hx.Anns(as))
	}
	for i := range msgs {
		at, err := time.Parse(time.RFC3339Nano, times[i])
		if err != nil {
			t.Fail("time of a log: %v", err)
		}
		got = append(got, fmt.Sprintf("log %q at %d", msgs[i], at.UnixNano()))
	}
	if span != nil {
		var ts appdash.Timespan
		if err := appdash.UnmarshalEvent(span, &ts); err != nil {
			t.Fail("UnmarshalEvent of the time span: %v (%s)", err, hx.Anns(as))
		}
		got = append(got, fmt.Sprintf("from %d to %d", ts.S.UnixNano(), ts.E.UnixNano()))
	}
	sort.Strings(got)
	return
}

// check compares what was collected for one healthy span.
func check(t *mc.T, sp basictracer.RawSpan, cs []*call) {
	id, want := expect(sp)
	var all []appdash.Annotation
	for _, c := range cs {
		if c.id != id {
			t.Fail("span %v is collected as %v", id, c.id)
		}
		if hx.Anns(c.kept) != hx.Anns(c.anns) {
			t.Fail("annotations changed after the collection from %s to %s", hx.Anns(c.anns), hx.Anns(c.kept))
		}
		all = append(all, c.anns...)
	}
	if got := digest(t, all); strings.Join(got, "\n") != strings.Join(want, "\n") {
		t.Fail("span %v is collected with\n%s\ninstead of\n%s\n(annotations %s)", id, strings.Join(got, "\n"), strings.Join(want, "\n"), hx.Anns(all))
	}
	// what readers of the trace get
	var es []appdash.Event
	if err := appdash.UnmarshalEvents(all, &es); err != nil {
		t.Fail("UnmarshalEvents: %v (annotations %s)", err, hx.Anns(all))
	}
	spans := 0
	for _, e := range es {
		if ts, ok := e.(appdash.Timespan); ok {
			spans++
			if !ts.S.Equal(sp.Start) || !ts.E.Equal(sp.Start.Add(sp.Duration)) {
				t.Fail("the time span is %v instead of %v + %v", ts, sp.Start, sp.Duration)
			}
		}
	}
	if spans != 1 {
		t.Fail("%d time spans are recorded: %s", spans, hx.Anns(all))
	}
}

type plain struct {
	Field int
	Other string
}
type stringer struct{ n int }

func (s stringer) String() string { return fmt.Sprintf("stringer %d", s.n) }

type named string

var tagValues = []any{
	"text", "", "ünïcode\x00\n", 42, -1, uint64(1<<64 - 1), true, false, 1.5, float32(0.1), nil,
	plain{7, "x"}, &plain{8, "y"}, stringer{3}, named("n"), []byte{1, 2}, []string{"a", "b"}, map[string]int{"k": 1},
	errors.New("an error"), time.Second, (*plain)(nil), int8(-8), 1e100, 'r', time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC),
}

// fields are log fields of every kind.
var fields = []func() []otlog.Field{
	func() []otlog.Field { return nil },
	func() []otlog.Field { return []otlog.Field{otlog.String("event", "happened")} },
	func() []otlog.Field { return []otlog.Field{otlog.String("event", "")} },
	func() []otlog.Field { return []otlog.Field{otlog.String("other", "v")} },
	func() []otlog.Field { return []otlog.Field{otlog.String("event", "e"), otlog.String("other", "v")} },
	func() []otlog.Field {
		return []otlog.Field{otlog.String("other", ""), otlog.Bool("b", true), otlog.Bool("c", false)}
	},
	func() []otlog.Field {
		return []otlog.Field{otlog.Int("i", -5), otlog.Int32("j", -1<<31), otlog.Int64("k", -1<<63)}
	},
	func() []otlog.Field {
		return []otlog.Field{otlog.Uint32("i", 1<<32-1), otlog.Uint64("j", 1<<64-1), otlog.Int64("k", 1<<63-1)}
	},
	func() []otlog.Field { return []otlog.Field{otlog.Float32("f", 0.5), otlog.Float64("g", -1234.25)} },
	func() []otlog.Field {
		return []otlog.Field{otlog.Float32("f", 1.0/3), otlog.Float64("g", 1e-9), otlog.Float64("h", math.Pi), otlog.Float64("i", -math.MaxFloat64), otlog.Float32("j", math.SmallestNonzeroFloat32), otlog.Float64("k", math.Inf(1))}
	},
	func() []otlog.Field { return []otlog.Field{otlog.Error(errors.New("boom"))} },
	func() []otlog.Field { return []otlog.Field{otlog.Object("o", plain{1, "z"})} },
	func() []otlog.Field { return []otlog.Field{otlog.Object("event", plain{1, "z"})} },
	func() []otlog.Field { return []otlog.Field{otlog.Object("o", nil)} },
	func() []otlog.Field { return []otlog.Field{otlog.Noop()} },
	func() []otlog.Field { return []otlog.Field{otlog.Noop(), otlog.String("event", "with noop")} },
	func() []otlog.Field { return []otlog.Field{otlog.Int("event", 3)} },
	func() []otlog.Field { return []otlog.Field{otlog.String("", "empty key")} },
	func() []otlog.Field { return []otlog.Field{otlog.String("k<&>", "\"quoted\" <&> \n\x00 é")} },
	func() []otlog.Field {
		return []otlog.Field{otlog.Lazy(func(fv otlog.Encoder) { fv.EmitString("a", "lazy"); fv.EmitInt("b", 2) })}
	},
	func() []otlog.Field {
		return []otlog.Field{otlog.Int("a", 1), otlog.Lazy(func(fv otlog.Encoder) {
			fv.EmitLazyLogger(func(fv otlog.Encoder) { fv.EmitObject("c", stringer{9}); fv.EmitFloat32("f", 2) })
		})}
	},
	func() []otlog.Field {
		return []otlog.Field{otlog.Lazy(func(fv otlog.Encoder) { fv.EmitString("event", "lazy event") })}
	},
	func() []otlog.Field { return []otlog.Field{otlog.Lazy(func(fv otlog.Encoder) {})} },
}

var starts = []time.Time{
	mc.Epoch,
	time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.FixedZone("X", 5*3600+1800)),
	time.Date(1969, 1, 1, 0, 0, 0, 1, time.UTC),
	{},
}

var durations = []time.Duration{0, 1, time.Millisecond + 1, 49 * time.Hour, -time.Second}

type triple struct{ t, s, p uint64 }

var ids = []triple{{1, 2, 0}, {1, 2, 3}, {1<<64 - 1, 1 << 63, 1<<64 - 1}, {0, 0, 0}, {5, 5, 5}}

// C24: OpenTracing spans are mapped without loss.
func init() {
	kit.Prop("C24", func(tier string) (us []*kit.Unit) {
		us = append(us,
			&kit.Unit{Name: "span", Rule: "all combinations of 5 identifiers, 4 operation names, 4 start times, 5 durations, sampled or not",
				Body: c24span},
			&kit.Unit{Name: "tags", Rule: "all sets of up to 2 tags over 25 values of every kind and 3 keys, with 3 sets of baggage (also with the keys of tags), every order of map iteration",
				Opt: mc.Options{MapOrder: 3, MapFree: true}, Body: func(t *mc.T) { c24tags(t) }},
			&kit.Unit{Name: "baggage", Rule: "all sets of up to 3 tags and up to 3 baggage items, every order of map iteration",
				Opt: mc.Options{MapOrder: 3, MapFree: true}, Body: func(t *mc.T) { c24maps(t, 3) }},
			&kit.Unit{Name: "tracer", Rule: "all sequences of starting (roots, children, following spans, remote children), tagging, logging, baggage, renaming and finishing up to the bound through a tracer, sampled and unsampled traces",
				Body: func(t *mc.T) { c24tracer(t, pick(tier, 4, 5)) }},
		)
		for _, verbose := range []bool{false, true} {
			verbose := verbose
			us = append(us, &kit.Unit{Name: fmt.Sprintf("faults/%v", verbose),
				Rule: "every pattern of failing collector calls over two spans of five items, with and without logger",
				Body: func(t *mc.T) { c24faults(t, verbose) }})
		}
		us = append(us, &kit.Unit{Name: "logs", Rule: "all sequences of up to " + fmt.Sprint(pick(tier, 2, 3)) + " log entries over 23 field lists, with 4 times",
			Body: func(t *mc.T) { c24logs(t, pick(tier, 2, 3)) }})
		add := func(race bool, bound, n int) {
			us = append(us, &kit.Unit{Name: fmt.Sprintf("concurrent/%d/%d", n, bound), Race: race, Opt: mc.Options{Bound: bound},
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of %d goroutines recording through one recorder over a collector that works, fails once or always, verbose or not", bound, n),
				Body: func(t *mc.T) { c24conc(t, n) }})
		}
		if tier == "quick" {
			add(false, 2, 2)
			add(false, 1, 3)
			add(true, 1, 2)
		} else {
			add(false, 3, 2)
			add(false, 2, 3)
			add(true, 2, 2)
			add(true, 1, 3)
		}
		return
	})
}

func pick(tier string, q, th int) int {
	if tier == "quick" {
		return q
	}
	return th
}

func raw(id triple) basictracer.RawSpan {
	return basictracer.RawSpan{
		Context:      basictracer.SpanContext{TraceID: id.t, SpanID: id.s, Sampled: true},
		ParentSpanID: id.p,
		Operation:    "op",
		Start:        mc.Epoch,
		Duration:     time.Millisecond,
	}
}

func c24span(t *mc.T) {
	sp := raw(ids[t.Choose(len(ids), "identifiers")])
	sp.Operation = []string{"op", "", "ünï /\x00\n", "Name"}[t.Choose(4, "operation")]
	sp.Start = starts[t.Choose(len(starts), "start")]
	sp.Duration = durations[t.Choose(len(durations), "duration")]
	sp.Context.Sampled = t.Choose(2, "sampled") == 0
	if t.Choose(2, "tags and baggage") == 1 {
		sp.Tags = ot.Tags{"tag": "value"}
		sp.Context.Baggage = map[string]string{"bag": "gage"}
		sp.Logs = []ot.LogRecord{{Timestamp: sp.Start, Fields: fields[1]()}}
	}
	r := aot.NewRecorder(coll{}, aot.Options{Logger: logger(), Verbose: true})
	r.RecordSpan(sp)
	c24verdict(t, sp)
	// a second, sampled span after it
	n := len(calls())
	next := raw(triple{77, 78, 79})
	r.RecordSpan(next)
	check(t, next, calls()[n:])
	mc.State(fmt.Sprint(expect(sp)))
}

func c24verdict(t *mc.T, sp basictracer.RawSpan) {
	mc.Calm()
	cs := calls()
	if !sp.Context.Sampled {
		if len(cs) > 0 {
			t.Fail("an unsampled span is collected as %v %s", cs[0].id, hx.Anns(cs[0].anns))
		}
	} else {
		check(t, sp, cs)
	}
	if l := logged(); len(l) > 0 {
		t.Fail("the logger got %q", l)
	}
}

func c24tags(t *mc.T) {
	sp := raw(ids[1])
	sp.Tags = ot.Tags{}
	keys := []string{"a", "component", ""}
	for i, n := 0, t.Choose(2, "tags")+1; i < n; i++ {
		sp.Tags[keys[t.Choose(len(keys), "key")]] = tagValues[t.Choose(len(tagValues), "value")]
	}
	switch t.Choose(3, "baggage") {
	case 1:
		sp.Context.Baggage = map[string]string{"a": "bag"}
	case 2:
		sp.Context.Baggage = map[string]string{"": "", "user": "ü\x00"}
	}
	aot.NewRecorder(coll{}, aot.Options{Logger: logger(), Verbose: true}).RecordSpan(sp)
	c24verdict(t, sp)
	mc.State(fmt.Sprint(expect(sp)))
}

func c24maps(t *mc.T, n int) {
	sp := raw(ids[1])
	if k := t.Choose(n+1, "tags"); k > 0 {
		sp.Tags = ot.Tags{}
		for i := 0; i < k; i++ {
			sp.Tags[fmt.Sprintf("key%d", i)] = i
		}
	}
	if k := t.Choose(n+1, "baggage"); k > 0 {
		sp.Context.Baggage = map[string]string{}
		for i := 0; i < k; i++ {
			sp.Context.Baggage[fmt.Sprintf("key%d", i+1)] = fmt.Sprintf("bag%d", i)
		}
	}
	aot.NewRecorder(coll{}, aot.Options{Logger: logger(), Verbose: true}).RecordSpan(sp)
	c24verdict(t, sp)
	mc.State(fmt.Sprint(expect(sp)))
}

func c24logs(t *mc.T, max int) {
	sp := raw(ids[0])
	for i, n := 0, t.Choose(max, "logs")+1; i < n; i++ {
		at := mc.Epoch
		if i == 0 {
			at = starts[t.Choose(len(starts), "time")]
		} else {
			at = at.Add(time.Duration(i) * time.Microsecond)
		}
		sp.Logs = append(sp.Logs, ot.LogRecord{Timestamp: at, Fields: fields[t.Choose(len(fields), "fields")]()})
	}
	aot.NewRecorder(coll{}, aot.Options{Logger: logger(), Verbose: true}).RecordSpan(sp)
	c24verdict(t, sp)
	mc.State(fmt.Sprint(expect(sp)))
}

func full(id triple) basictracer.RawSpan {
	sp := raw(id)
	sp.Tags = ot.Tags{"tag": "value"}
	sp.Context.Baggage = map[string]string{"bag": "gage"}
	sp.Logs = []ot.LogRecord{{Timestamp: mc.Epoch, Fields: fields[1]()}}
	return sp
}

// offered checks that everything of the spans was offered to the collector, and what was said about failures.
func offered(t *mc.T, sps []basictracer.RawSpan, verbose bool, lg []string) (unreported int) {
	cs := calls()
	reports := map[string]int{}
	var failed []*call
	per := map[appdash.SpanID][]appdash.Annotation{}
	for _, c := range cs {
		report := false
		for _, f := range cs {
			for _, a := range c.anns {
				report = report || f.err != nil && a.Key == "Msg" && strings.Contains(string(a.Value), f.err.Error())
			}
		}
		if report {
			for _, f := range cs {
				for _, a := range c.anns {
					if f.err != nil && a.Key == "Msg" && strings.Contains(string(a.Value), f.err.Error()) {
						reports[f.err.Error()]++
						if f.id != c.id {
							t.Fail("a failure of span %v is reported in span %v", f.id, c.id)
						}
					}
				}
			}
			if c.err != nil {
				unreported++
			}
			continue
		}
		per[c.id] = append(per[c.id], c.anns...)
		if c.err != nil {
			failed = append(failed, c)
		}
	}
	for _, sp := range sps {
		id, want := expect(sp)
		if got := digest(t, per[id]); strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fail("for span %v the collector is offered\n%s\ninstead of\n%s", id, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		delete(per, id)
	}
	for id := range per {
		t.Fail("the collector gets span %v", id)
	}
	for _, f := range failed {
		if n := reports[f.err.Error()]; n != 1 {
			t.Fail("the error %q is reported %d times in its span", f.err, n)
		}
	}
	return
}

func c24faults(t *mc.T, verbose bool) {
	c := coll{fail: func(int) bool { return mc.Choose(2, "call fails") == 1 }}
	opt := aot.Options{Verbose: verbose, Logger: logger()}
	mode := t.Choose(3, "logger")
	if mode == 1 {
		opt.Logger = nil
	}
	r := aot.NewRecorder(c, opt)
	switch mode {
	case 1:
		if r.Log == nil {
			t.Fail("a recorder without logger in the options has none")
		}
		r.Log.SetOutput(lines{})
		r.Log.SetFlags(0)
	case 2:
		r.Log = nil // documented: errors are logged if the logger is not nil
	}
	sps := []basictracer.RawSpan{full(triple{1, 2, 3}), raw(triple{1, 4, 2})}
	for _, sp := range sps {
		r.RecordSpan(sp)
	}
	unreported := offered(t, sps, verbose, nil)
	want := unreported
	if !verbose && want > 1 {
		want = 1
	}
	l := logged()
	if mode == 2 {
		want = 0
	}
	if len(l) != want {
		t.Fail("%d failures could not be collected, verbose is %v, the logger got %q", unreported, verbose, l)
	}
	for _, s := range l {
		if !strings.Contains(s, "failure ") {
			t.Fail("the logged line %q does not tell the error", s)
		}
	}
	mc.State(fmt.Sprint(len(l), len(calls())))
}

func c24conc(t *mc.T, n int) {
	pattern := t.Choose(3, "failures")
	verbose := t.Choose(2, "verbose") == 1
	c := coll{points: true}
	switch pattern {
	case 1:
		c.fail = func(n int) bool { return n < 2 }
	case 2:
		c.fail = func(int) bool { return true }
	}
	r := aot.NewRecorder(c, aot.Options{Verbose: verbose, Logger: logger()})
	var sps []basictracer.RawSpan
	var ts []*mc.T
	for i := 0; i < n; i++ {
		sp := raw(triple{1, uint64(10 + i), 5})
		sp.Operation = fmt.Sprintf("op%d", i)
		if i == 0 {
			sp = full(triple{1, 10, 5})
		}
		sps = append(sps, sp)
	}
	for _, sp := range sps {
		sp := sp
		ts = append(ts, t.Go(sp.Operation, func() { r.RecordSpan(sp) }))
	}
	t.Join(ts...)
	if pattern == 0 {
		per := map[appdash.SpanID][]*call{}
		for _, c := range calls() {
			per[c.id] = append(per[c.id], c)
		}
		for _, sp := range sps {
			id, _ := expect(sp)
			check(t, sp, per[id])
			delete(per, id)
		}
		for id := range per {
			t.Fail("the collector gets span %v", id)
		}
		if l := logged(); len(l) > 0 {
			t.Fail("the logger got %q", l)
		}
		return
	}
	// the records of a call and its error are atomic here, so that errors are told apart by the span they name
	for _, sp := range sps {
		id, want := expect(sp)
		var all []appdash.Annotation
		for _, c := range calls() {
			if c.id != id {
				continue
			}
			report := false
			for _, a := range c.anns {
				report = report || a.Key == "Msg" && strings.HasPrefix(string(a.Value), "failure ")
			}
			if !report {
				all = append(all, c.anns...)
			}
		}
		if got := digest(t, all); strings.Join(got, "\n") != strings.Join(want, "\n") {
			t.Fail("for span %v the collector is offered\n%s\ninstead of\n%s", id, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	}
	unreported := 0
	for _, c := range calls() {
		for _, a := range c.anns {
			if c.err != nil && a.Key == "Msg" && strings.HasPrefix(string(a.Value), "failure ") {
				unreported++
			}
		}
	}
	want := unreported
	if !verbose && want > 1 {
		want = 1
	}
	if l := logged(); len(l) != want {
		t.Fail("%d failures could not be collected, verbose is %v, the logger got %q", unreported, verbose, l)
	}
	mc.State(fmt.Sprint(pattern, verbose, len(calls())))
}

// span is a span of the tracer and its model.
type span struct {
	s    ot.Span
	m    basictracer.RawSpan
	done bool
}

func c24tracer(t *mc.T, depth int) {
	sampling := t.Choose(3, "sampling") // all, none, alternating
	seen := map[uint64]bool{}
	asked := 0
	opts := aot.DefaultOptions()
	opts.Logger = logger()
	opts.Verbose = true
	switch sampling {
	case 1:
		opts.ShouldSample = func(id uint64) bool { seen[id] = true; asked++; return false }
	case 2:
		opts.ShouldSample = func(id uint64) bool { seen[id] = true; asked++; return asked%2 == 0 }
	}
	tr := aot.NewTracerWithOptions(coll{}, opts)
	if sampling == 0 && t.Choose(2, "constructor") == 1 {
		tr = aot.NewTracer(coll{})
	}
	var spans []*span
	start := func(op string, parent *span, remote bool) {
		so := []ot.StartSpanOption{ot.StartTime(mc.Epoch.Add(time.Duration(len(spans)) * time.Second)), ot.Tag{Key: "kind", Value: op}}
		sp := &span{}
		if parent != nil {
			ctx := parent.s.Context()
			if remote {
				c := ot.TextMapCarrier{}
				if err := tr.Inject(ctx, ot.TextMap, c); err != nil {
					t.Fail("Inject: %v", err)
				}
				got, err := tr.Extract(ot.TextMap, c)
				if err != nil {
					t.Fail("Extract: %v", err)
				}
				ctx = got
			}
			if len(spans)%2 == 0 {
				so = append(so, ot.FollowsFrom(ctx))
			} else {
				so = append(so, ot.ChildOf(ctx))
			}
		}
		sp.s = tr.StartSpan(op, so...)
		sc := sp.s.Context().(basictracer.SpanContext)
		sp.m.Context.TraceID, sp.m.Context.SpanID = sc.TraceID, sc.SpanID
		sp.m.Operation = op
		sp.m.Start = mc.Epoch.Add(time.Duration(len(spans)) * time.Second)
		sp.m.Tags = ot.Tags{"kind": op}
		if parent != nil {
			sp.m.ParentSpanID = parent.m.Context.SpanID
			sp.m.Context.Sampled = parent.m.Context.Sampled
			if sc.TraceID != parent.m.Context.TraceID {
				t.Fail("a child is in another trace")
			}
			for k, v := range parent.m.Context.Baggage {
				sp.bag(k, v)
			}
		} else {
			sp.m.Context.Sampled = sampling == 0 || sampling == 2 && asked%2 == 0
			if sampling != 0 && !seen[sc.TraceID] {
				t.Fail("ShouldSample was not asked about trace %x", sc.TraceID)
			}
		}
		for _, o := range spans {
			if o.m.Context.SpanID == sc.SpanID {
				t.Fail("two spans have the ID %x", sc.SpanID)
			}
		}
		spans = append(spans, sp)
	}
	start("root", nil, false)
	finish := func(sp *span) {
		n := len(calls())
		end := mc.Epoch.Add(time.Minute)
		sp.m.Duration = end.Sub(sp.m.Start)
		sp.s.FinishWithOptions(ot.FinishOptions{FinishTime: end})
		sp.done = true
		cs := calls()[n:]
		if !sp.m.Context.Sampled {
			if len(cs) > 0 {
				t.Fail("an unsampled span is collected as %v %s", cs[0].id, hx.Anns(cs[0].anns))
			}
			return
		}
		// the times of log entries are the tracer's own here
		for i := range sp.m.Logs {
			if sp.m.Logs[i].Timestamp.IsZero() {
				t.Fail("the model has no time")
			}
		}
		check(t, sp.m, cs)
	}
	for i := 0; i < depth; i++ {
		live := []*span{}
		for _, sp := range spans {
			if !sp.done {
				live = append(live, sp)
			}
		}
		n := 2 * len(spans)
		k := t.Choose(1+n+5*len(live), "operation")
		switch {
		case k == 0:
			start(fmt.Sprint("root", i), nil, false)
		case k <= n:
			start(fmt.Sprint("child", i), spans[(k-1)/2], (k-1)%2 == 1)
		default:
			k -= 1 + n
			sp := live[k/5]
			switch k % 5 {
			case 0:
				sp.s.SetTag(fmt.Sprint("t", i%2), i)
				sp.m.Tags[fmt.Sprint("t", i%2)] = i
			case 1:
				sp.s.SetOperationName(fmt.Sprint("renamed", i))
				sp.m.Operation = fmt.Sprint("renamed", i)
			case 2:
				sp.s.SetBaggageItem(fmt.Sprint("b", i), fmt.Sprint("bag", i))
				sp.bag(fmt.Sprint("b", i), fmt.Sprint("bag", i))
			case 3:
				l := ot.LogRecord{Timestamp: mc.Epoch.Add(time.Duration(i)), Fields: fields[4]()}
				ld := ot.LogData{Timestamp: l.Timestamp, Event: fmt.Sprint("event", i)}
				l.Fields = []otlog.Field{otlog.String("event", fmt.Sprint("event", i))}
				sp.s.Log(ld)
				sp.m.Logs = append(sp.m.Logs, l)
			case 4:
				finish(sp)
			}
		}
	}
	for _, sp := range spans {
		if !sp.done {
			finish(sp)
		}
	}
	if l := logged(); len(l) > 0 {
		t.Fail("the logger got %q", l)
	}
	mc.State(fmt.Sprint(sampling, len(calls()), len(spans)))
}

func (s *span) bag(k, v string) {
	b := map[string]string{k: v}
	for k2, v2 := range s.m.Context.Baggage {
		if k2 != k {
			b[k2] = v2
		}
	}
	s.m.Context.Baggage = b
}
