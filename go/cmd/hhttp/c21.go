package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/kit"
	"verif/mc"
)

// C21: the middleware is transparent and records what was sent.
func init() {
	kit.Prop("C21", func(tier string) (us []*kit.Unit) {
		depth := 4
		if tier == "thorough" {
			depth = 5
		}
		for f := 0; f < len(c21ops); f++ {
			f := f
			us = append(us, &kit.Unit{
				Name: "handler/first=" + c21ops[f],
				Rule: fmt.Sprintf("all handlers of up to %d operations of %s (first fixed), on writers that can flush or not and whose writes succeed, fall short or fail in every combination; each run with and without the middleware on equal writers", depth, strings.Join(c21ops, ", ")),
				Body: func(t *mc.T) { c21(t, f, depth) },
			})
		}
		for f := range c21hijackOps {
			f := f
			us = append(us, &kit.Unit{
				Name: "hijack/first=" + c21hijackOps[f],
				Rule: fmt.Sprintf("all handlers of up to %d operations of %s (first fixed), on writers that can do nothing else, flush and set deadlines, or also be hijacked, with working writes; each run with and without the middleware on equal writers", depth, strings.Join(c21hijackOps, ", ")),
				Body: func(t *mc.T) {
					c21compareOf(t, httptrace.Middleware(capture{}, &httptrace.MiddlewareConfig{}), c21choose(t, c21hijackOps, f, depth), false, t.Choose(3, "the writer can flush, be hijacked"))
				},
			})
		}
		us = append(us, &kit.Unit{
			Name: "handler/deep",
			Rule: fmt.Sprintf("all handlers of up to %d operations of: 200, 404, 103, write, flush, set header", depth+1),
			Body: func(t *mc.T) { c21deep(t, depth+1) },
		})
		for f := 0; f < len(c21seqOps); f++ {
			f := f
			us = append(us, &kit.Unit{
				Name: "sequence/first=" + c21seqOps[f],
				Rule: fmt.Sprintf("three requests one after another through one middleware, each with all handlers of up to 2 operations of %s (the first one fixed); compared with the same handlers without the middleware", strings.Join(c21seqOps, ", ")),
				Body: func(t *mc.T) { c21sequence(t, f) },
			})
		}
		for _, race := range []bool{false, true} {
			for n := 2; n <= 3; n++ {
				n := n
				b := 5 - n
				if tier == "thorough" {
					b += 2
				}
				if race {
					b--
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("concurrent/%d", n), Race: race,
					Rule: fmt.Sprintf("%d requests at once through one middleware, each handler one of %d with a scheduling point after every operation; all schedules with <= %d other choices of the next thread", n, len(c21handlers), b),
					Opt:  mc.Options{Bound: b, Delay: true},
					Body: func(t *mc.T) { c21concurrent(t, n == 3) },
				})
			}
		}
		return
	})
}

var c21seqOps = []string{"none", "404", "write", "write string", "flush", "set header", "103"}

var c21handlers = [][]string{nil, {"404"}, {"write"}, {"500", "write string", "write"}, {"flush"}}

func c21sequence(t *mc.T, first int) {
	mw := httptrace.Middleware(capture{}, &httptrace.MiddlewareConfig{})
	for i := 0; i < 3; i++ {
		ops := []string{c21seqOps[first]}
		if i > 0 {
			ops[0] = c21seqOps[t.Choose(len(c21seqOps), "operation")]
		}
		if ops[0] == "none" {
			ops = nil
		} else if k := t.Choose(len(c21seqOps), "operation"); k > 0 {
			ops = append(ops, c21seqOps[k])
		}
		c21compareOf(t, mw, ops, false, 1)
	}
}

func c21concurrent(t *mc.T, three bool) {
	mw := httptrace.Middleware(capture{}, &httptrace.MiddlewareConfig{})
	n := 2
	if three {
		n = 3
	}
	var ws []*rw
	var ths []*mc.T
	var hs []int
	for i := 0; i < n; i++ {
		k := t.Choose(len(c21handlers), "handler")
		if i > 0 && k < hs[i-1] {
			return // (a permutation of one that is explored)
		}
		hs = append(hs, k)
	}
	mc.Stir()
	for i := 0; i < n; i++ {
		ops := c21handlers[hs[i]]
		w := newRW()
		ws = append(ws, w)
		i := i
		ths = append(ths, t.Go("request", func() {
			r, _ := http.NewRequest("GET", fmt.Sprint("http://example.com/", i), nil)
			mw(flushRW{w}, r, func(w http.ResponseWriter, r *http.Request) {
				mc.Point("handler")
				for _, op := range ops {
					c21run(w, []string{op})
					mc.Point("handler")
				}
			})
			w.end()
		}))
	}
	t.Join(ths...)
	mc.Calm()
	l := collected()
	if len(l) != n {
		t.Fail("%d requests, %d spans", n, len(l))
	}
	for i := range ws {
		plain, _, _ := c21once(t, c21handlers[hs[i]], 1, nil, nil)
		plain.body = strings.Replace(plain.body, "hello2", "hello0", 1)
		if g, w := ws[i].client(), plain.client(); g != w {
			t.Fail("request %d of %v: the client receives\n%s\ninstead of\n%s", i, hs, g, w)
		}
		found := 0
		for _, g := range l {
			e := g.serverEvent(t)
			if e.Request.URI != fmt.Sprint("/", i) {
				continue
			}
			found++
			if e.Response.StatusCode != plain.status || e.Response.ContentLength != int64(len(plain.body)) {
				t.Fail("request %d of %v: recorded status %d, %d bytes; sent: status %d, %d bytes", i, hs, e.Response.StatusCode, e.Response.ContentLength, plain.status, len(plain.body))
			}
			if id := ws[i].h.Get(httptrace.HeaderSpanID); id != g.id.String() {
				t.Fail("request %d of %v: header %s, span %v", i, hs, id, g.id)
			}
		}
		if found != 1 {
			t.Fail("request %d of %v: %d events", i, hs, found)
		}
	}
}

var c21ops = []string{"200", "404", "204", "304", "103", "101", "500", "write", "write nothing", "write string", "flush", "flush by controller",
	"set header", "add header", "delete header", "set length", "copy", "panic"}

var c21hijackOps = []string{"hijack", "hijack by controller", "deadline by controller", "404", "103", "write", "flush", "copy", "set header", "panic"}

var errC21 = errors.New("write failed")

// c21run runs a handler; it returns what the handler saw.
func c21run(w http.ResponseWriter, ops []string) (log []string) {
	note := func(a ...any) { log = append(log, fmt.Sprint(a...)) }
	for i, op := range ops {
		switch op {
		case "200", "404", "204", "304", "103", "101", "500":
			var c int
			fmt.Sscan(op, &c)
			w.WriteHeader(c)
		case "write":
			n, err := w.Write([]byte(fmt.Sprintf("hello%d", i)))
			note(n, err)
		case "write nothing":
			n, err := w.Write(nil)
			note(n, err)
		case "write string":
			n, err := io.WriteString(w, "xyz")
			note(n, err)
		case "flush":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		case "flush by controller":
			http.NewResponseController(w).Flush()
		case "set header":
			w.Header().Set("X-H", fmt.Sprint(i))
		case "add header":
			w.Header().Add("X-H", fmt.Sprint("+", i))
		case "delete header":
			w.Header().Del("X-H")
		case "set length":
			w.Header().Set("Content-Length", "8")
		case "copy":
			n, err := io.Copy(w, strings.NewReader("copied"))
			note(n, err)
		case "hijack":
			if h, ok := w.(http.Hijacker); ok {
				c21raw(note, h.Hijack)
			} else {
				note("no hijacker")
			}
		case "hijack by controller":
			c21raw(note, http.NewResponseController(w).Hijack)
		case "deadline by controller":
			note(http.NewResponseController(w).SetWriteDeadline(time.Unix(int64(1000+i), 0)))
		case "panic":
			panic(http.ErrAbortHandler)
		}
		note(headerString(w.Header(), httptrace.HeaderSpanID))
	}
	return
}

// c21raw takes over the connection.
func c21raw(note func(a ...any), hijack func() (net.Conn, *bufio.ReadWriter, error)) {
	_, b, err := hijack()
	if err != nil {
		note("hijack: ", errors.Is(err, http.ErrNotSupported), " ", errors.Is(err, http.ErrHijacked))
		return
	}
	in, err := io.ReadAll(b)
	note(string(in), err)
	b.WriteString("raw")
	b.Flush()
}

// c21once runs a handler with or without the middleware on a fresh writer.
func c21once(t *mc.T, ops []string, can int, mw func(http.ResponseWriter, *http.Request, http.HandlerFunc), outcomes func(n int) (int, error)) (w *rw, log []string, panicked any) {
	w = newRW()
	w.outcomes = outcomes
	var hw http.ResponseWriter = w
	switch can {
	case 1:
		hw = flushRW{w}
	case 2:
		hw = hijackRW{flushRW{w}}
	}
	r, _ := http.NewRequest("GET", "http://example.com/p", nil)
	h := func(w http.ResponseWriter, r *http.Request) { log = c21run(w, ops) }
	func() {
		defer func() { panicked = recover() }()
		if mw != nil {
			mw(hw, r, h)
		} else {
			h(hw, r)
		}
	}()
	if panicked == nil {
		w.end()
	}
	return
}

func c21(t *mc.T, first, depth int) {
	c21compare(t, c21choose(t, c21ops, first, depth), true)
}

// c21choose chooses the operations of a handler.
func c21choose(t *mc.T, of []string, first, depth int) []string {
	ops := []string{of[first]}
	for len(ops) < depth && ops[len(ops)-1] != "panic" {
		k := t.Choose(len(of)+1, "operation")
		if k == len(of) {
			break
		}
		ops = append(ops, of[k])
	}
	return ops
}

func c21deep(t *mc.T, depth int) {
	var ops []string
	for len(ops) < depth {
		k := t.Choose(7, "operation")
		if k == 6 {
			break
		}
		ops = append(ops, []string{"200", "404", "103", "write", "flush", "set header"}[k])
	}
	c21compare(t, ops, false)
}

func c21compare(t *mc.T, ops []string, faults bool) {
	can := t.Choose(2, "the writer can flush")
	c21compareOf(t, httptrace.Middleware(capture{}, &httptrace.MiddlewareConfig{}), ops, faults, can)
}

func c21compareOf(t *mc.T, mw func(http.ResponseWriter, *http.Request, http.HandlerFunc), ops []string, faults bool, can int) {
	before := len(collected())
	type outcome struct {
		n   int
		err error
	}
	var chosen []outcome
	pick := func(n int) (int, error) {
		o := outcome{n, nil}
		if faults {
			switch t.Choose(3, "write") {
			case 1:
				o = outcome{0, errC21}
			case 2:
				o = outcome{n - 1, errC21}
			}
		}
		chosen = append(chosen, o)
		return o.n, o.err
	}
	plain, plainLog, plainPanic := c21once(t, ops, can, nil, pick)
	i := 0
	replay := func(n int) (int, error) {
		if i >= len(chosen) {
			t.Fail("%q: with the middleware there are more writes than without", ops)
		}
		o := chosen[i]
		i++
		if o.n > n {
			t.Fail("%q: with the middleware the writes are others than without", ops)
		}
		return o.n, o.err
	}
	traced, tracedLog, tracedPanic := c21once(t, ops, can, mw, replay)
	if plainPanic != tracedPanic {
		t.Fail("%q: the handler panics with %v, the middleware with %v", ops, plainPanic, tracedPanic)
	}
	if p, w := plain.client(), traced.client(); p != w {
		t.Fail("%q: the client receives\n%s\nwith the middleware instead of\n%s", ops, w, p)
	}
	if a, b := fmt.Sprintf("%q", plainLog), fmt.Sprintf("%q", tracedLog); a != b {
		t.Fail("%q: the handler sees\n%s\nwith the middleware instead of\n%s", ops, b, a)
	}
	if p, w := headerString(plain.h, httptrace.HeaderSpanID), headerString(traced.h, httptrace.HeaderSpanID); p != w {
		t.Fail("%q: at the end (trailers) the headers are\n%s\nwith the middleware instead of\n%s", ops, w, p)
	}
	if plainPanic == nil {
		l := collected()[before:]
		if len(l) != 1 {
			t.Fail("%q: %d spans collected", ops, len(l))
		}
		e := l[0].serverEvent(t)
		if e.Response.StatusCode != plain.status && !(plain.hijacked && plain.status == 0) {
			t.Fail("%q: status %d was recorded, %d was sent", ops, e.Response.StatusCode, plain.status)
		}
		if e.Response.ContentLength != int64(len(plain.body)) {
			t.Fail("%q: a body of %d bytes was recorded, %d were sent", ops, e.Response.ContentLength, len(plain.body))
		}
	}
	mc.State(plain.client())
}
