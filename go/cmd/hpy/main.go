// Command hpy holds the harness for the Python client: the real client runs in a process of its own, the real collector server here.
package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
	vnet "verif/shim/net"
)

func main() {
	log.SetOutput(io.Discard)
	kit.Main()
}

func must(t *mc.T, err error, what string) {
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
}

type rec struct {
	id appdash.SpanID
	as []appdash.Annotation
}

func (r *rec) String() string {
	l := make([]string, len(r.as))
	for i, a := range r.as {
		l[i] = fmt.Sprintf("%q=%q", a.Key, a.Value)
	}
	return fmt.Sprintf("%x/%x/%x{%s}", uint64(r.id.Trace), uint64(r.id.Span), uint64(r.id.Parent), strings.Join(l, ";"))
}

// unordered ignores the order of the annotations.
func (r *rec) unordered() string {
	c := &rec{r.id, append([]appdash.Annotation(nil), r.as...)}
	sort.SliceStable(c.as, func(i, j int) bool {
		if c.as[i].Key != c.as[j].Key {
			return c.as[i].Key < c.as[j].Key
		}
		return string(c.as[i].Value) < string(c.as[j].Value)
	})
	return c.String()
}

type sink struct{ n int }

func (s sink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	mc.Rec([2]any{s.n, &rec{id, append([]appdash.Annotation(nil), as...)}})
	return nil
}

func collected(n int) (l []*rec) {
	for _, r := range mc.Records() {
		if x, ok := r.([2]any); ok && x[0] == n {
			l = append(l, x[1].(*rec))
		}
	}
	return
}

// feed gives the streams to a collector server each, over a connection each, and returns what it has collected.
func feed(t *mc.T, streams [][]byte) (l [][]*rec) {
	for i, s := range streams {
		addr := fmt.Sprintf("server%d:7701", i)
		ln, err := vnet.Listen("tcp", addr)
		must(t, err, "Listen")
		cs := appdash.NewServer(ln, sink{i})
		t.Go("server", cs.Start)
		c, err := vnet.Dial("tcp", addr)
		must(t, err, "Dial")
		c.Write(s)
		mc.AfterIdle()
		c.Close()
		mc.AfterIdle()
		l = append(l, collected(i))
	}
	return
}

func id(s string) appdash.ID {
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return appdash.ID(v)
}

func anns(l [][2]string) (as []appdash.Annotation) {
	for _, a := range l {
		as = append(as, appdash.Annotation{Key: string(unhex(a[0])), Value: unhex(a[1])})
	}
	return
}

func (o *pyOp) rec() *rec {
	return &rec{appdash.SpanID{Trace: id(o.ID[0]), Span: id(o.ID[1]), Parent: id(o.ID[2])}, anns(o.Anns)}
}

func all(l []*rec) string {
	s := make([]string, len(l))
	for i, r := range l {
		s[i] = r.String()
	}
	return "[" + strings.Join(s, " ") + "]"
}

func show(l []*rec) string {
	x := all(l)
	if len(x) > 1500 {
		x = fmt.Sprintf("%s ... (%d spans)", x[:1500], len(l))
	}
	return x
}

func init() {
	kit.Prop("C33", func(tier string) (us []*kit.Unit) {
		thorough := tier == "thorough"
		pick := func(q, t int) int {
			if thorough {
				return t
			}
			return q
		}
		opt := mc.Options{NoPreempt: true}
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Opt: opt, Body: body})
		}
		for i := 0; i < 4; i++ {
			i := i
			add(fmt.Sprintf("socket/short/%d", i), fmt.Sprintf("%d spans through the socket collector; up to %d sends take one byte, half, or all but one byte; debug mode, a socket of the program's own", pick(3, 4), pick(4, 5)),
				func(t *mc.T) {
					c33socket(t, run(t, map[string]any{"scenario": "sock", "n": pick(3, 4), "short": pick(4, 5)}, i/2, i%2))
				})
			add(fmt.Sprintf("socket/faults/%d", i), fmt.Sprintf("the same with up to %d sends that time out or fail; then the program stops, goes on, or connects again", pick(1, 2)),
				func(t *mc.T) {
					c33socket(t, run(t, map[string]any{"scenario": "sock", "n": 3, "faults": pick(1, 2), "short": 2}, i/2, i%2))
				})
		}
		ids := []string{"0", "1", "7f", "80", "ff", "100", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff"}
		for i := range ids {
			i := i
			add(fmt.Sprintf("encode/ids/%d", i), fmt.Sprintf("all span IDs of %v (first fixed)", ids), func(t *mc.T) {
				c33encode(t, run(t, map[string]any{"scenario": "encode", "n": 0, "ids": ids}, i))
			})
		}
		keys := []string{"", "6b", "c3a9", "5f736368656d613a78", "00", strings.Repeat("61", 128)}
		vals := []string{"", "76", "ff00", "c3a9", "0a0d22", strings.Repeat("80", 127), strings.Repeat("00", 300)}
		for k := 0; k <= pick(2, 3); k++ {
			k := k
			for j := range keys {
				j := j
				if k == 0 && j > 0 {
					continue
				}
				add(fmt.Sprintf("encode/annotations/%d/%d", k, j), fmt.Sprintf("%d annotations (first key fixed), all combinations of %d keys and %d values", k, len(keys), len(vals)), func(t *mc.T) {
					c33encode(t, run(t, map[string]any{"scenario": "encode", "n": 3, "ids": ids[1:2], "keys": keys, "values": vals}, k, j))
				})
			}
		}
		add("encode/sizes", "values of sizes around the steps of the length prefixes", func(t *mc.T) {
			c33encode(t, run(t, map[string]any{"scenario": "encode", "n": 0, "ids": ids[1:2],
				"sizes": []int{0, 1, 86, 87, 88, 89, 90, 91, 92, 126, 127, 128, 129, 255, 256, 16000, 16340, 16341, 16342, 16343, 16344, 16345, 16346, 16347, 16383, 16384, 16385, 65535, 65536, 1000000}}))
		})
		add("ids", fmt.Sprintf("a root span and %d descendants of any shape, every random ID from a set; their text parsed by ParseSpanID", pick(2, 3)), func(t *mc.T) {
			r := run(t, map[string]any{"scenario": "ids", "n": pick(2, 3), "bits": []string{"1", "ff", "fffffffffffff0", "8000000000000000", "ffffffffffffffff"}})
			if r == nil {
				return
			}
			for _, x := range r.Texts {
				c33text(t, x[0], appdash.SpanID{Trace: id(x[1]), Span: id(x[2]), Parent: id(x[3])})
			}
		})
		steps := pick(6, 7)
		for i := 0; i < 6; i++ {
			for j := 0; j < 4; j++ {
				i, j := i, j
				add(fmt.Sprintf("twisted/%d/%d", i, j), fmt.Sprintf("all sequences of %d steps (first two fixed): wait 0.1, 1.2 or 4 s, collect a span, accept or refuse the connection, lose it (everything, or not all of the last write, arrived); then nothing fails", steps),
					func(t *mc.T) { c33twisted(t, run(t, map[string]any{"scenario": "tw", "n": steps}, i, j)) })
			}
		}
		for i := 0; i < 9; i++ {
			i := i
			add(fmt.Sprintf("twisted/two/%d", i), fmt.Sprintf("two collectors of one program for two servers, %d steps (first fixed)", pick(4, 5)),
				func(t *mc.T) {
					c33twisted(t, run(t, map[string]any{"scenario": "tw", "n": pick(4, 5), "factories": 2, "debug": true}, i))
				})
		}
		add("twisted/data", "the same with one collector in debug mode, and a server that sends something", func(t *mc.T) {
			c33twisted(t, run(t, map[string]any{"scenario": "tw", "n": pick(4, 6), "data": true, "debug": true}))
		})
		for i := 0; i < 5; i++ {
			i := i
			add(fmt.Sprintf("twisted/long/%d", i), "up to 14 refused attempts before every connection (first choice fixed), up to 400 spans collected before it and 300 during it, and up to 5 lost connections",
				func(t *mc.T) { c33twisted(t, run(t, map[string]any{"scenario": "twlong"}, i)) })
		}
		for i, l := range [][2]int{{3000, 0}, {300, 100}, {20, 3000}} {
			l := l
			add(fmt.Sprintf("socket/large/%d", i), fmt.Sprintf("%d spans with %d annotations (0: few)", l[0], l[1]), func(t *mc.T) {
				c33socket(t, run(t, map[string]any{"scenario": "sock", "n": l[0], "anns": l[1]}))
			})
		}
		for i := 0; i < 9; i++ {
			i := i
			fixed := []int{i / 3, 0}
			if i%3 > 0 {
				fixed = []int{i / 3, 1, i%3 - 1} // (two spans, the number of tags of the first)
			}
			add(fmt.Sprintf("tracer/%d/%d", i/3, i%3), "up to two OpenTracing spans, root or child, with all sets of tags and baggage, sampled or not, finished in any order and way", func(t *mc.T) {
				c33tracer(t, run(t, map[string]any{"scenario": "tracer", "n": 2, "tags": pick(1, 2)}, fixed...))
			})
		}
		for _, k := range []string{"name", "msg", "log", "timespan", "sql", "server", "client"} {
			k := k
			if k == "server" || k == "client" {
				for i := 0; i < 3; i++ {
					i := i
					add(fmt.Sprintf("events/%s/%d", k, i), "events of this kind with all combinations of values of their fields, unmarshalled by the Go library", func(t *mc.T) {
						c33event(t, k, run(t, map[string]any{"scenario": "events", "kind": k, "times": pick(2, 4)}, i))
					})
				}
				continue
			}
			add("events/"+k, "events of this kind with all combinations of values of their fields, unmarshalled by the Go library", func(t *mc.T) {
				c33event(t, k, run(t, map[string]any{"scenario": "events", "kind": k}))
			})
		}
		for _, u := range us {
			u.Opt.Horizon = 400000
		}
		return
	})
}

func c33text(t *mc.T, text string, want appdash.SpanID) {
	got, err := appdash.ParseSpanID(text)
	if err != nil || *got != want {
		t.Fail("the text of span ID %v is %q; ParseSpanID: %v, %v", want, text, got, err)
	}
}

func c33encode(t *mc.T, r *pyResult) {
	if r == nil {
		return
	}
	c33socket(t, r)
	o := r.Ops[0].rec()
	c33text(t, r.Text, o.id)
}

// c33socket: on every connection the spans whose collection succeeded, in order and once; those whose collection failed at most.
func c33socket(t *mc.T, r *pyResult) {
	if r == nil {
		return
	}
	var streams [][]byte
	for _, c := range r.Conns {
		streams = append(streams, c.sent)
	}
	got := feed(t, streams)
	for i, l := range got {
		rest := l
		for _, o := range r.Ops {
			if o.Conn != i {
				continue
			}
			w := o.rec().String()
			if len(rest) > 0 && rest[0].String() == w {
				rest = rest[1:]
			} else if o.OK {
				t.Fail("connection %d: %s was collected without an error and the server has %s", i, w, show(l))
			}
		}
		if len(rest) > 0 {
			t.Fail("connection %d: the server has collected %s, which the program did not collect: %s", i, rest[0], show(l))
		}
	}
	mc.State(fmt.Sprint(len(r.Ops), len(got)))
}

// c33twisted: what is collected is given, in order and once, to a connection that is up, of the right server; what was given to a
// connection that is lost may not arrive.
func c33twisted(t *mc.T, r *pyResult) {
	if r == nil {
		return
	}
	var streams [][]byte
	for _, c := range r.Conns {
		streams = append(streams, c.written, c.sent)
	}
	got := feed(t, streams)
	given := map[int][]*rec{}
	for i, c := range r.Conns {
		w, s := got[2*i], got[2*i+1]
		given[c.To] = append(given[c.To], w...)
		if len(s) > len(w) || all(s) != all(w[:len(s)]) || !c.Lost && len(s) < len(w) {
			t.Fail("connection %d: %s was sent and %s arrived", i, show(w), show(s))
		}
	}
	want := map[int][]*rec{}
	for _, o := range r.Ops {
		want[o.Conn] = append(want[o.Conn], o.rec())
	}
	for i := 0; i < 2; i++ {
		if all(given[i]) != all(want[i]) {
			t.Fail("%v: server %d should have been sent %s, was sent %s; errors: %v", r.Log, i, show(want[i]), show(given[i]), r.Errors)
		}
	}
	mc.State(fmt.Sprint(r.Log))
}

func at(f float64) time.Time {
	return time.Unix(int64(math.Floor(f)), int64(math.Round((f-math.Floor(f))*1e6))*1000).UTC()
}

func near(a, b time.Time) bool {
	d := a.Sub(b)
	return d < 2*time.Microsecond && d > -2*time.Microsecond
}

func c33tracer(t *mc.T, r *pyResult) {
	if r == nil {
		return
	}
	got := feed(t, [][]byte{r.Conns[0].sent})[0]
	spans := map[appdash.SpanID][]appdash.Annotation{}
	for _, x := range got {
		spans[x.id] = append(spans[x.id], x.as...)
	}
	for _, s := range r.Spans {
		sid := appdash.SpanID{Trace: id(s.ID[0]), Span: id(s.ID[1]), Parent: id(s.ID[2])}
		as := spans[sid]
		delete(spans, sid)
		var evs []appdash.Event
		if err := appdash.UnmarshalEvents(as, &evs); err != nil {
			t.Fail("span %v: UnmarshalEvents: %v", sid, err)
		}
		name, times := 0, 0
		for _, e := range evs {
			switch e := e.(type) {
			case appdash.SpanNameEvent:
				if e.Name != s.Name {
					t.Fail("span %v has the name %q instead of %q", sid, e.Name, s.Name)
				}
				name++
			case appdash.Timespan:
				if !near(e.S, at(s.Start)) || !near(e.E, at(s.End)) {
					t.Fail("span %v: %v to %v instead of %v to %v", sid, e.S, e.E, at(s.Start), at(s.End))
				}
				times++
			default:
				t.Fail("span %v has an event %#v", sid, e)
			}
		}
		if name != 1 || times != 1 {
			t.Fail("span %v has %d names and %d times: %s", sid, name, times, hx.Anns(as))
		}
		rest := &rec{sid, nil}
		for _, a := range as {
			switch a.Key {
			case "Name", "Span.Start", "Span.End", "_schema:name", "_schema:Timespan":
			default:
				rest.as = append(rest.as, a)
			}
		}
		if w := (&rec{sid, anns(s.Anns)}).unordered(); rest.unordered() != w {
			t.Fail("tags and baggage: %s instead of %s", rest.unordered(), w)
		}
	}
	if len(spans) > 0 {
		t.Fail("spans that were not to be recorded: %v", spans)
	}
	mc.State(fmt.Sprint(len(r.Spans), got))
}

func text(v any) string {
	if m, ok := v.(map[string]any); ok {
		return string(unhex(m["s"].(string)))
	}
	return ""
}

func number(v any) int64 {
	f, _ := v.(float64)
	return int64(f)
}

func header(v any) http.Header {
	h := http.Header{}
	for k, x := range v.(map[string]any) {
		h[k] = []string{text(x)}
	}
	return h
}

func c33event(t *mc.T, kind string, r *pyResult) {
	if r == nil {
		return
	}
	l := feed(t, [][]byte{r.Conns[0].sent})[0]
	if len(l) != 1 || l[0].String() != r.Ops[0].rec().String() {
		t.Fail("the server has %s", show(l))
	}
	as := appdash.Annotations(l[0].as)
	var evs []appdash.Event
	if err := appdash.UnmarshalEvents(as, &evs); err != nil {
		t.Fail("UnmarshalEvents(%s): %v", l[0], err)
	}
	if len(evs) != 1 {
		t.Fail("UnmarshalEvents(%s): %d events", l[0], len(evs))
	}
	w := r.Want
	same := func(what string, got, want any) {
		if g, ok := got.(time.Time); ok {
			if near(g, want.(time.Time)) {
				return
			}
		} else if g, ok := got.(http.Header); ok && len(g) == 0 && len(want.(http.Header)) == 0 {
			return
		} else if reflect.DeepEqual(got, want) {
			return
		}
		t.Fail("%s event: %s is %#v instead of %#v: %s", kind, what, got, want, l[0])
	}
	when := func(k string) time.Time {
		f, _ := w[k].(float64)
		return at(f)
	}
	info := func(req httptrace.RequestInfo, res httptrace.ResponseInfo) {
		same("Request.Method", req.Method, text(w["Request.Method"]))
		same("Request.URI", req.URI, text(w["Request.URI"]))
		same("Request.Proto", req.Proto, text(w["Request.Proto"]))
		same("Request.Host", req.Host, text(w["Request.Host"]))
		same("Request.RemoteAddr", req.RemoteAddr, text(w["Request.RemoteAddr"]))
		same("Request.ContentLength", req.ContentLength, number(w["Request.ContentLength"]))
		same("Request.Headers", headers(req.Headers), header(w["Request.Headers"]))
		same("Response.ContentLength", res.ContentLength, number(w["Response.ContentLength"]))
		same("Response.StatusCode", int64(res.StatusCode), number(w["Response.StatusCode"]))
		same("Response.Headers", headers(res.Headers), header(w["Response.Headers"]))
	}
	switch e := evs[0].(type) {
	case appdash.SpanNameEvent:
		same("kind", "name", kind)
		same("Name", e.Name, text(w["Name"]))
	case appdash.Timespan:
		same("kind", "timespan", kind)
		same("S", e.S, when("S"))
		same("E", e.E, when("E"))
	case sqltrace.SQLEvent:
		same("kind", "sql", kind)
		same("SQL", e.SQL, text(w["SQL"]))
		same("Tag", e.Tag, text(w["Tag"]))
		same("ClientSend", e.ClientSend, when("ClientSend"))
		same("ClientRecv", e.ClientRecv, when("ClientRecv"))
	case httptrace.ServerEvent:
		same("kind", "server", kind)
		same("Route", e.Route, text(w["Route"]))
		same("User", e.User, text(w["User"]))
		same("ServerSend", e.ServerSend, when("ServerSend"))
		same("ServerRecv", e.ServerRecv, when("ServerRecv"))
		info(e.Request, e.Response)
	case httptrace.ClientEvent:
		same("kind", "client", kind)
		same("ClientSend", e.ClientSend, when("ClientSend"))
		same("ClientRecv", e.ClientRecv, when("ClientRecv"))
		info(e.Request, e.Response)
	default:
		// (the types of the messages and logs are not exported)
		same("kind", e.Schema(), kind)
		v := reflect.Indirect(reflect.ValueOf(e))
		same("Msg", v.FieldByName("Msg").String(), text(w["Msg"]))
		if kind == "log" {
			same("Time", v.FieldByName("Time").Interface(), when("Time"))
		}
	}
	mc.State(l[0].unordered())
}

// headers is any map of header values.
func headers(m any) http.Header {
	h := http.Header{}
	v := reflect.ValueOf(m)
	for _, k := range v.MapKeys() {
		x := v.MapIndex(k)
		if x.Kind() == reflect.String {
			h[k.String()] = []string{x.String()}
		} else {
			for i := 0; i < x.Len(); i++ {
				h[k.String()] = append(h[k.String()], x.Index(i).String())
			}
		}
	}
	return h
}
