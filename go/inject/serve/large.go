package main

import (
	"fmt"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

func largeUnits() {
	kit.Large("C28", "requests", "%d requests, most with wrong credentials of all lengths, between them some with the right ones; credentials of 10 kB", 2000, 20000, c28large)
	kit.Large("C29", "spans", "%d spans of 20 traces from 10 clients over many intervals of saving, restarts after every third of them, and a trace of 200 spans", 300, 800, c29large)
	kit.Large("C35", "traces", "%d traces over two minutes, from 5 clients and by upload, age 10 s, a restart in the middle; as many clients as traces that connect once", 150, 600, c35large)
}

func c28large(t *mc.T, n int) {
	cred := "user:passwd"
	if t.Choose(2, "long credentials") == 1 {
		cred = "user:" + strings.Repeat("long password ", 700)
	}
	h := protected(t, cred)
	right := basic(cred)
	for i := 0; i < n; i++ {
		if i%100 == 99 {
			if w := do(h, request{target: "/traces", header: auth(right)}); w.Code != 200 || !strings.Contains(w.Body.String(), "</html>") {
				t.Fail("after %d requests the right credentials are answered %d", i, w.Code)
			}
			continue
		}
		v := ""
		switch i % 5 {
		case 0:
			v = basic(fmt.Sprint("user:", i))
		case 1:
			v = basic("user:" + strings.Repeat("p", i))
		case 2:
			v = right[:len(right)*(i%97)/97]
		case 3:
			v = basic(fmt.Sprint("user", i, ":passwd"))
		case 4:
			v = basic(cred + strings.Repeat("x", i%300+1))
		}
		if i%50 == 0 {
			shut(t, h, right, auth(v))
		} else if msg := unauthorized(do(h, request{target: "/traces", header: auth(v)})); msg != "" {
			t.Fail("request %d, header %.100q: %s", i, v, msg)
		}
	}
	mc.State(fmt.Sprint(len(cred)))
}

func c29large(t *mc.T, n int) {
	flags := "--persist-interval=2s"
	m := hx.NewM()
	p := serving(t, flags)
	var rcs []*appdash.RemoteCollector
	connect := func() {
		rcs = nil
		for i := 0; i < 10; i++ {
			rcs = append(rcs, remote(""))
		}
	}
	connect()
	kills := 0
	chunk := t.Choose(2, "chunking clients") == 1
	for i := 0; i < n; {
		var ccs []*appdash.ChunkedCollector
		for k := 0; k < 40 && i < n; k++ {
			id := hx.ID(uint64(1+i%20), uint64(100+i), 0)
			if i >= 20 {
				id.Parent = appdash.ID(100 + i%20 + (i/40)*20)
				if id.Parent == id.Span {
					id.Parent = appdash.ID(100 + i%20)
				}
			}
			as := []appdash.Annotation{hx.A("Name", fmt.Sprint("span ", i)), hx.A("v", strings.Repeat("v", i*5%800))}
			var c appdash.Collector = rcs[i%10]
			if chunk {
				if len(ccs) < 10 {
					cc := chunked(c)
					cc.MinInterval = time.Hour
					ccs = append(ccs, cc)
				}
				c = ccs[k%10]
			}
			put(t, c, m, id, as...)
			i++
		}
		for _, cc := range ccs {
			flush(cc)
		}
		mc.AfterIdle()
		check(t, p, m, fmt.Sprintf("after %d spans", i))
		mc.SleepIdle(2500 * time.Millisecond)
		if i/40%3 == 2 || i >= n {
			kills++
			kill(t, kills)
			p = serving(t, flags)
			connect()
			checkUI(t, p, m, fmt.Sprintf("after %d spans and restart %d", i, kills))
		}
	}
	for i, id := range hx.Order(3, hx.Large(0x99, 2, 200)) {
		put(t, rcs[i%10], m, id, hx.A("Name", fmt.Sprint(i)))
	}
	mc.AfterIdle()
	checkUI(t, p, m, "with a trace of 200 spans")
	mc.SleepIdle(2500 * time.Millisecond)
	kill(t, kills+1)
	check(t, serving(t, flags), m, "after a restart with a trace of 200 spans")
	mc.State(fmt.Sprint(chunk))
}

func c35large(t *mc.T, n int) {
	flags := "--persist-interval=3s --delete-after=10s"
	s := &ages{t: t, age: 10 * time.Second, m: hx.NewM(), a: map[appdash.ID]*aged{}}
	s.p = serving(t, flags)
	once := t.Choose(2, "clients that connect once") == 1
	var rcs []*appdash.RemoteCollector
	connect := func() {
		rcs = nil
		for i := 0; i < 5; i++ {
			rcs = append(rcs, remote(""))
		}
	}
	connect()
	step := 2 * time.Minute / time.Duration(n)
	for i := 0; i < n; i++ {
		what := fmt.Sprintf("trace %d of %d", i, n)
		id, as := hx.ID(uint64(i+1), uint64(1000+i), 0), []appdash.Annotation{hx.A("n", fmt.Sprint(i))}
		if i%10 == 9 {
			body := fmt.Sprintf(`[{"ID":{"Trace":"%016x","Span":"%016x","Parent":"0000000000000000"},"Annotations":[{"Key":"n","Value":"Ng=="}],"Sub":null}]`, i+1, 1000+i)
			if w := do(s.p.h, request{method: "POST", target: "/traces/upload", body: body}); w.Code >= 400 {
				t.Fail("%s: the upload has status %d: %.200s", what, w.Code, w.Body)
			}
			as = []appdash.Annotation{hx.A("n", "6")}
		} else {
			rc := rcs[i%5]
			if once {
				rc = remote("")
			}
			if err := rc.Collect(id, as...); err != nil {
				t.Fail("%s: Collect: %v", what, err)
			}
			mc.AfterIdle()
			if once {
				if err := rc.Close(); err != nil {
					t.Fail("%s: Close: %v", what, err)
				}
			}
		}
		s.collected(id, as, what)
		if i%7 == 6 { // another span, of a trace that may be gone
			old := hx.ID(uint64(i-3), uint64(5000+i), uint64(1000+i-4))
			as := []appdash.Annotation{hx.A("more", fmt.Sprint(i))}
			if err := rcs[i%5].Collect(old, as...); err != nil {
				t.Fail("%s: Collect: %v", what, err)
			}
			mc.AfterIdle()
			s.collected(old, as, what+", and a span more")
		}
		mc.SleepIdle(step)
		if i == n/2 {
			mc.SleepIdle(3500 * time.Millisecond)
			s.look("before the restart")
			kill(t, 1)
			s.p = serving(t, flags)
			connect()
			now := mc.Elapsed()
			for _, a := range s.a {
				a.base = now
			}
			s.look("after the restart")
		}
	}
	mc.State(fmt.Sprint(once, len(s.a)))
}
