package main

import (
	"fmt"
	"strings"
	"time"

	basictracer "github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"
	"sourcegraph.com/sourcegraph/appdash"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
	"verif/kit"
	"verif/mc"
)

func init() {
	kit.Large("C24", "spans", "one span with %d tags, logs, fields of a log and baggage items, as many spans through one recorder, also when every third call of the collector fails", 400, 3000, c24large)
}

func c24large(t *mc.T, n int) {
	mode := t.Choose(4, "kind")
	rec := func(f func(int) bool, verbose bool) *aot.Recorder {
		return aot.NewRecorder(coll{fail: f}, aot.Options{Verbose: verbose, Logger: logger()})
	}
	switch mode {
	case 0: // one large span
		sp := raw(ids[1])
		sp.Operation = strings.Repeat("op", n)
		sp.Tags, sp.Context.Baggage = ot.Tags{}, map[string]string{}
		var fs []otlog.Field
		for i := 0; i < n; i++ {
			sp.Tags[fmt.Sprintf("tag%d", i)] = strings.Repeat("v", i)
			sp.Context.Baggage[fmt.Sprintf("bag%d", i)] = strings.Repeat("b", i)
			fs = append(fs, otlog.Int(fmt.Sprintf("field%d", i), i))
			sp.Logs = append(sp.Logs, ot.LogRecord{Timestamp: mc.Epoch.Add(time.Duration(i)), Fields: []otlog.Field{otlog.String("event", fmt.Sprint("log ", i))}})
		}
		sp.Logs = append(sp.Logs, ot.LogRecord{Timestamp: mc.Epoch, Fields: fs})
		rec(nil, true).RecordSpan(sp)
		c24verdict(t, sp)
	case 1: // many spans
		r := rec(nil, true)
		for i := 0; i < n; i++ {
			sp := full(triple{uint64(1 + i%3), uint64(i + 10), uint64(i % 2)})
			sp.Operation = fmt.Sprint("op", i%5)
			sp.Start = sp.Start.Add(time.Duration(i) * time.Hour)
			sp.Tags["tag"] = i
			sp.Context.Sampled = i%4 != 3
			r.RecordSpan(sp)
			cs := calls()
			if sp.Context.Sampled {
				check(t, sp, cs[max(0, len(cs)-200):][func() int {
					l := cs[max(0, len(cs)-200):]
					for k := range l {
						if l[k].id.Span == appdash.ID(sp.Context.SpanID) {
							return k
						}
					}
					return len(l)
				}():])
			} else if len(cs) > 0 && cs[len(cs)-1].id.Span == appdash.ID(sp.Context.SpanID) {
				t.Fail("the unsampled span %d is collected", i)
			}
		}
		if l := logged(); len(l) > 0 {
			t.Fail("the logger got %q", l)
		}
	default: // failures: all calls fail, so that every failure goes unreported
		verbose := mode == 3
		n /= 4
		r := rec(func(int) bool { return true }, verbose)
		var sps []basictracer.RawSpan
		for i := 0; i < n; i++ {
			sp := raw(triple{1, uint64(i + 10), 5})
			sps = append(sps, sp)
			r.RecordSpan(sp)
		}
		per := map[appdash.ID]int{}
		reports := 0
		for _, c := range calls() {
			rep := false
			for _, a := range c.anns {
				rep = rep || a.Key == "Msg" && strings.Contains(string(a.Value), "failure ")
			}
			if rep {
				reports++
			} else {
				per[c.id.Span]++
			}
		}
		if len(per) != n {
			t.Fail("%d spans are offered instead of %d", len(per), n)
		}
		want := reports
		if !verbose {
			want = 1
		}
		if l := logged(); len(l) != want || reports == 0 {
			t.Fail("%d failures could not be collected, verbose is %v, the logger got %d lines", reports, verbose, len(l))
		}
	}
	mc.State(fmt.Sprint(mode))
}
