package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"regexp"
	"strings"
	"time"

	"crypto/tls"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// c29units: the whole pipeline.
func c29units() {
	kit.Prop("C29", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, race bool, o mc.Options, body func(t *mc.T)) {
			o.Horizon = 1000000
			us = append(us, &kit.Unit{Name: name, Rule: rule, Race: race, Opt: o, Body: body})
		}
		b := pick(tier, 1, 2)
		variants := []string{"", "--tls --debug --trace --delete-after=0", "--store-file="}
		if tier != "quick" {
			variants = append(variants, "--tls", "--debug", "--trace", "--delete-after=0", "--delete-after=1h --persist-interval=500ms")
		}
		for i, v := range variants {
			v, b := v, b
			if i == 0 {
				b = 2
			} else if tier != "quick" && strings.Contains(v, "store-file") {
				b = 3
			}
			name := strings.Trim(strings.ReplaceAll(strings.ReplaceAll(v, "--", ""), " ", ","), ",=")
			if name == "" {
				name = "default"
			}
			add("pipeline/one/"+name, fmt.Sprintf("all schedules with <= %d preemptions (and map orders) of two goroutines recording a trace of 4 spans through one chunking remote collector to a served appdash started with %q, then a flush", b, v), false, mc.Options{Bound: b, MapOrder: 4}, func(t *mc.T) { c29pipe(t, v, 1) })
		}
		add("pipeline/two", fmt.Sprintf("all schedules with <= %d delays of two applications with a chunking remote collector each that record spans of the same trace", b+1), false, mc.Options{Bound: b + 1, Delay: true}, func(t *mc.T) { c29pipe(t, "", 2) })
		add("pipeline/two-race", "all schedules with <= 2 delays of two applications with a chunking remote collector each that record spans of the same trace", true, mc.Options{Bound: 2, Delay: true}, func(t *mc.T) { c29pipe(t, "", 2) })
		add("pipeline/timed", fmt.Sprintf("all schedules with <= %d delays, timers firing at any time, of recorders, background flushes and the saving of the store", b+1), false, mc.Options{Bound: b + 1, Timers: true, Delay: true}, c29timed)
		for ph := 0; ph < 2; ph++ {
			ph := ph
			add(fmt.Sprintf("kill/save%d", ph+1), fmt.Sprintf("the server killed at every point of save %d (<= %d preemptions, spans arriving at the same time), restarted, continued, killed and restarted again", ph+1, b), false, mc.Options{Bound: b}, func(t *mc.T) { c29kill(t, ph) })
		}
		d := pick(tier, 4, 5)
		for f := 0; f < c29ops; f++ {
			f := f
			add(fmt.Sprintf("restarts/first=%d", f), fmt.Sprintf("all histories of %d of: a new trace, a child span of the newest trace, more annotations for its root, an interval with a save, kill and restart (first fixed), then a restart after a save", d), false, mc.Options{NoPreempt: true}, func(t *mc.T) { c29restarts(t, f, d) })
		}
		add("send", "the send command delivers what it makes to a served appdash, over TCP and TLS", false, mc.Options{NoPreempt: true}, c29send)
		add("sample-data", "serve --sample-data, with and without a store file, restarted", false, mc.Options{NoPreempt: true}, c29sample)
		return
	})
}

const storeFile = "/data/c29.gob"

// serving starts the program with the flags.
func serving(t *mc.T, flags string) *program {
	args := []string{"serve", "--store-file", storeFile}
	for _, a := range strings.Fields(flags) {
		if a == "--tls" {
			putCert()
			args = append(args, "--tls-cert", "/etc/cert.pem", "--tls-key", "/etc/key.pem")
			continue
		}
		args = append(args, a)
	}
	p := start(t, args...)
	if p.h == nil {
		t.Fail("appdash %s does not start: %v", strings.Join(args, " "), p.code)
	}
	return p
}

// remote makes a remote collector for the served appdash.
func remote(flags string) *appdash.RemoteCollector {
	if strings.Contains(flags, "--tls") {
		return appdash.NewTLSRemoteCollector("localhost:7701", &tls.Config{ServerName: "localhost"})
	}
	return appdash.NewRemoteCollector("localhost:7701")
}

func chunked(c appdash.Collector) *appdash.ChunkedCollector {
	cc := appdash.NewChunkedCollector(c)
	cc.Log = nil
	return cc
}

var (
	reArea = regexp.MustCompile(`(?s)id="copy-json-text".*?<textarea[^>]*>(.*?)</textarea>`)
	reList = regexp.MustCompile(`data-json-trace="([^"]*)"`)
)

// shown gets a trace from its page.
func shown(h http.Handler, id appdash.ID) (*appdash.Trace, error) {
	w := do(h, request{target: "/traces/" + id.String()})
	b := w.Body.String()
	if w.Code == 404 {
		return nil, appdash.ErrTraceNotFound
	}
	if w.Code != 200 || !strings.HasSuffix(strings.TrimSpace(b), "</html>") {
		return nil, fmt.Errorf("the page of the trace has status %d: %.300q", w.Code, b)
	}
	l := attrs(b, reArea)
	if len(l) != 1 {
		return nil, fmt.Errorf("the page of the trace has %d exports", len(l))
	}
	var ts []*appdash.Trace
	if err := json.Unmarshal([]byte(l[0]), &ts); err != nil || len(ts) != 1 {
		return nil, fmt.Errorf("exported trace: %v: %.300s", err, l[0])
	}
	return ts[0], nil
}

// get asks for a trace.
func get(p *program, id appdash.ID) (*appdash.Trace, error) {
	if app, ok := p.h.(*traceapp.App); ok {
		return app.Store.Trace(id)
	}
	return shown(p.h, id)
}

// check compares what the application has with the model, without rendering pages if it can.
func check(t *mc.T, p *program, m *hx.StoreM, what string) {
	app, ok := p.h.(*traceapp.App)
	if !ok {
		checkUI(t, p, m, what)
		return
	}
	for id := range m.T {
		if msg := hx.CheckOne(app.Store.Trace, m, id); msg != "" {
			t.Fail("%s: %s", what, msg)
		}
	}
	ts, err := app.Queryer.Traces(appdash.TracesOpts{})
	if err != nil {
		t.Fail("%s: Traces: %v", what, err)
	}
	if msg := hx.CheckList(ts, m); msg != "" {
		t.Fail("%s: %s", what, msg)
	}
}

// checkUI compares what the web UI shows with the model.
func checkUI(t *mc.T, p *program, m *hx.StoreM, what string) {
	for id := range m.T {
		if msg := hx.CheckOne(func(id appdash.ID) (*appdash.Trace, error) { return shown(p.h, id) }, m, id); msg != "" {
			t.Fail("%s: %s", what, msg)
		}
	}
	w := do(p.h, request{target: "/traces"})
	if w.Code != 200 {
		t.Fail("%s: /traces has status %d: %.300s", what, w.Code, w.Body)
	}
	var ts []*appdash.Trace
	for _, j := range attrs(w.Body.String(), reList) {
		var x appdash.Trace
		if err := json.Unmarshal([]byte(j), &x); err != nil {
			t.Fail("exported trace of the list: %v: %.300s", err, j)
		}
		ts = append(ts, &x)
	}
	if msg := hx.CheckList(ts, m); msg != "" {
		t.Fail("%s: %s", what, msg)
	}
}

// kill ends the program and its clients, and starts a process afresh.
func kill(t *mc.T, n int) {
	mc.Kill()
	mc.Reinit([]byte{byte(n), 7})
}

// span is a recorder with what it must deliver.
type span struct {
	*appdash.Recorder
	as []appdash.Annotation
}

func (s *span) ev(e appdash.Event) {
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		mc.Fail("MarshalEvent: %v", err)
	}
	s.Event(e)
	s.as = append(s.as, as...)
}

// done finishes the span and notes what must arrive.
func (s *span) done(k string) {
	s.ev(appdash.SpanName(k))
	if k == "root" {
		s.ev(appdash.Msg("message of " + k))
	}
	s.Finish()
	if es := s.Errors(); len(es) > 0 {
		mc.Fail("span %v (%s): %v", s.SpanID, k, es)
	}
	mc.Rec(hx.Rec{ID: s.SpanID, Anns: append([]appdash.Annotation(nil), s.as...)})
}

func child(s *span) *span { return &span{Recorder: s.Child()} }

// expected is the model of what has been recorded.
func expected(m *hx.StoreM) *hx.StoreM {
	for _, x := range mc.Records() {
		if r, ok := x.(hx.Rec); ok {
			m.Collect(r.ID, r.Anns...)
		}
	}
	return m
}

// c29pipe: recorders, chunking collectors and a server.
func c29pipe(t *mc.T, flags string, apps int) {
	p := serving(t, flags)
	ccs := make([]*appdash.ChunkedCollector, apps)
	for i := range ccs {
		ccs[i] = chunked(remote(flags))
	}
	root := &span{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), ccs[0])}
	id := root.SpanID
	mc.AfterIdle()
	mc.Stir()
	a := t.Go("a", func() {
		c := child(root)
		c.done("child")
		child(c).done("grandchild")
		root.done("root")
		if apps > 1 {
			flush(ccs[0])
		}
	})
	b := t.Go("b", func() {
		// As a request of another process would: with the ID of the span it comes from.
		s := &span{Recorder: appdash.NewRecorder(appdash.NewSpanID(id), ccs[apps-1])}
		s.done("other")
		if apps > 1 {
			flush(ccs[1])
		}
	})
	t.Join(a, b)
	if apps == 1 {
		flush(ccs[0])
	}
	mc.Calm()
	mc.AfterIdle()
	check(t, p, expected(hx.NewM()), "after the flush")
	if strings.Contains(flags, "--store-file=") || mc.RaceEnabled {
		return // (the race detector knows nothing of kills)
	}
	for _, cc := range ccs {
		cc.Stop()
	}
	mc.SleepIdle(3 * time.Second)
	kill(t, 1)
	check(t, serving(t, flags), expected(hx.NewM()), "after a save and a restart")
}

func flush(c *appdash.ChunkedCollector) {
	if err := c.Flush(); err != nil {
		mc.Fail("Flush: %v", err)
	}
}

// c29timed: only background flushes.
func c29timed(t *mc.T) {
	p := serving(t, "--persist-interval=500ms")
	cc := chunked(remote(""))
	cc.FlushTimeout = 0
	root := &span{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), cc)}
	mc.AfterIdle()
	mc.Stir()
	a := t.Go("a", func() {
		child(root).done("child")
		root.done("root")
	})
	t.Join(a)
	mc.Sleep(time.Second)
	mc.Calm()
	mc.SleepIdle(time.Second)
	check(t, p, expected(hx.NewM()), "after the interval")
	cc.Stop()
	mc.SleepIdle(time.Second)
	kill(t, 1)
	check(t, serving(t, ""), expected(hx.NewM()), "after a save and a restart")
}

func put(t *mc.T, c appdash.Collector, m *hx.StoreM, id appdash.SpanID, as ...appdash.Annotation) {
	if err := c.Collect(id, as...); err != nil {
		t.Fail("Collect: %v", err)
	}
	m.Collect(id, as...)
}

const a1, a2, b1, c1 = 1, 2, 3, 4

// c29kill: kills during save ph+1.
func c29kill(t *mc.T, ph int) {
	flags := "--persist-interval=2s"
	serving(t, flags)
	rc := remote("")
	m := hx.NewM()
	put(t, rc, m, hx.ID(a1, 10, 0), hx.A("Name", "a"), hx.A("", "\x00\xff"))
	put(t, rc, m, hx.ID(a1, 11, 10), hx.A("Name", "child"))
	sure := hx.NewM() // what has been saved
	if ph > 0 {
		mc.SleepIdle(time.Duration(ph)*2*time.Second + time.Second)
		sure = m.Clone()
		put(t, rc, m, hx.ID(a1, 10, 0), hx.A("more", "of a"))
		put(t, rc, m, hx.ID(b1, 20, 0), hx.A("Name", "b"))
		put(t, rc, m, hx.ID(a1, 12, 11), hx.A("Name", "grandchild"))
	}
	mc.AfterIdle()
	before, _ := mc.FSGet(storeFile)
	late := []hx.Rec{{ID: hx.ID(c1, 30, 0), Anns: []appdash.Annotation{hx.A("Name", "c")}}, {ID: hx.ID(a1, 13, 10), Anns: []appdash.Annotation{hx.A("Name", "late"), hx.A("k", "v")}}}
	at := time.Duration(ph+1) * 2 * time.Second
	mc.Stir()
	t.Go("late", func() {
		mc.Sleep(at - mc.Elapsed())
		for _, r := range late {
			if err := rc.Collect(r.ID, r.Anns...); err != nil {
				mc.Fail("Collect: %v", err)
			}
		}
	})
	mc.Sleep(at - mc.Elapsed())
	mc.Point("kill")
	mc.Calm()
	kill(t, 1)
	if after, _ := mc.FSGet(storeFile); after != before {
		sure = m
	}
	p := serving(t, flags)
	for _, r := range late { // may have been saved
		if tr, err := get(p, r.ID.Trace); err == nil && has(tr, r.ID.Span) {
			sure.Collect(r.ID, r.Anns...)
		}
	}
	check(t, p, sure, "after a kill and a restart")
	m = sure
	rc = remote("")
	put(t, rc, m, hx.ID(a1, 14, 11), hx.A("Name", "after"))
	put(t, rc, m, hx.ID(a1, 10, 0), hx.A("even more", "of a"))
	put(t, rc, m, hx.ID(b1, 21, 20), hx.A("Name", "after"))
	put(t, rc, m, hx.ID(5, 50, 0), hx.A("Name", "new"))
	mc.AfterIdle()
	check(t, p, m, "with spans that came after the restart")
	mc.SleepIdle(3 * time.Second)
	kill(t, 2)
	check(t, serving(t, flags), m, "after another save and restart")
	mc.State(m.Canon())
}

func has(t *appdash.Trace, id appdash.ID) bool {
	if t.Span.ID.Span == id {
		return true
	}
	for _, s := range t.Sub {
		if has(s, id) {
			return true
		}
	}
	return false
}

const c29ops = 6

// c29restarts: histories.
func c29restarts(t *mc.T, first, depth int) {
	flags := "--persist-interval=2s"
	cur, saved := hx.NewM(), hx.NewM()
	p := serving(t, flags)
	rc := remote("")
	var tr, sp, parent uint64 = 1, 1, 1 // newest trace, newest span
	kills := 0
	what := ""
	step := func(op int) {
		switch op {
		case 0:
			if sp > 1 {
				tr++
			}
			sp++
			parent = sp
			put(t, rc, cur, hx.ID(tr, sp, 0), hx.A("Name", fmt.Sprint("trace ", tr)))
			what += "new "
		case 1:
			sp++
			put(t, rc, cur, hx.ID(tr, sp, parent), hx.A("Name", fmt.Sprint("span ", sp)), hx.A("k", ""))
			what += "child "
		case 2:
			if parent == 1 {
				break
			}
			put(t, rc, cur, hx.ID(tr, parent, 0), hx.A("k", fmt.Sprint("after ", sp)))
			what += "more "
		case 3:
			mc.SleepIdle(2500 * time.Millisecond)
			saved = cur.Clone()
			what += "save "
		default:
			kills++
			mc.AfterIdle()
			checkUI(t, p, cur, what)
			kill(t, kills)
			cur = saved.Clone()
			p = serving(t, flags)
			if op == 4 {
				rc = remote("") // the clients start again too
			}
			what += "restart "
			checkUI(t, p, cur, what)
		}
	}
	step(first)
	for i := 1; i < depth; i++ {
		step(t.Choose(c29ops, "step"))
	}
	mc.AfterIdle()
	step(3)
	step(4)
	mc.State(cur.Canon())
}

// tee notes what is sent.
type tee struct {
	c appdash.Collector
	m *hx.StoreM
}

func (s tee) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	s.m.Collect(id, as...)
	return s.c.Collect(id, as...)
}

// samples checks sample data of the command.
func samples(t *mc.T, p *program, want int) {
	w := do(p.h, request{target: "/traces"})
	var n int
	for _, j := range attrs(w.Body.String(), reList) {
		var x appdash.Trace
		if err := json.Unmarshal([]byte(j), &x); err != nil {
			t.Fail("exported trace of the list: %v: %.300s", err, j)
		}
		n++
		spans := 0
		for s := &x; ; s = s.Sub[0] {
			spans++
			if !s.Span.ID.IsRoot() && s == &x {
				t.Fail("a sample trace has no root: %s", hx.Shape(&x))
			}
			if s.Span.Name() == "" {
				t.Fail("a span of a sample trace has no name: %v", s.Span)
			}
			if len(s.Sub) == 0 {
				break
			}
			if len(s.Sub) > 1 || s.Sub[0].Span.ID.Parent != s.Span.ID.Span {
				t.Fail("a sample trace is not a chain: %s", hx.Shape(&x))
			}
		}
		if spans < 4 || spans > 7 {
			t.Fail("a sample trace has %d spans: %s", spans, hx.Shape(&x))
		}
		tr, err := shown(p.h, x.Span.ID.Trace)
		if err != nil || hx.Tree(tr) != hx.Tree(&x) {
			t.Fail("the page of trace %v shows another trace than the list: %v", x.Span.ID.Trace, err)
		}
	}
	if n != want {
		t.Fail("%d traces of sample data instead of %d", n, want)
	}
}

func c29send(t *mc.T) {
	flags := []string{"", "--tls"}[t.Choose(2, "protocol")]
	p := serving(t, flags)
	if t.Choose(2, "command or its data") == 1 {
		m := hx.NewM()
		if err := sampleData(tee{remote(flags), m}); err != nil {
			t.Fail("sampleData: %v", err)
		}
		mc.AfterIdle()
		checkUI(t, p, m, "sample data")
		return
	}
	args := []string{"send", "-c", "localhost:7701"}
	if flags != "" {
		args = append(args, "-p", "tls", "-s", "localhost")
	}
	if t.Choose(2, "debug") == 1 {
		args = append(args, "-d")
	}
	if _, err := CLI.ParseArgs(args); err != nil {
		t.Fail("appdash %s: %v", strings.Join(args, " "), err)
	}
	mc.AfterIdle()
	samples(t, p, 60)
}

func c29sample(t *mc.T) {
	flags := "--sample-data --persist-interval=1s" + []string{"", " --delete-after=0"}[t.Choose(2, "delete after")]
	p := serving(t, flags)
	samples(t, p, 60)
	mc.SleepIdle(1500 * time.Millisecond)
	kill(t, 1)
	if t.Choose(2, "sample data again") == 0 {
		samples(t, serving(t, ""), 60)
		return
	}
	samples(t, serving(t, flags), 120)
}
