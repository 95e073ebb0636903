package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

func init() {
	kit.Large("C16", "collections", "slices, arrays and maps of %d and fewer elements of every kind, texts of up to 1 MB, and many events one after another", 1000, 10000, c16large)
	kit.Large("C17", "annotations", "events among %d annotations that belong to no event, before, after and between theirs; events with hundreds of headers", 800, 5000, c17large)
	kit.Large("C30", "traces", "traces of %d spans in 6 shapes: every span found, the text, the name and the times among hundreds of annotations", 300, 1000, c30large)
}

// several has collections of all kinds.
type several struct {
	S1 []string
	S2 []int64
	S3 []bool
	S4 []float64
	S5 []time.Time
	S6 []time.Duration
	S7 []uint8
	M1 map[string]string
	M2 map[string]int64
	M3 map[string]float64
	M4 map[string]time.Time
	A  [300]int16
	T  string
	N  Inner2
}

func (several) Schema() string { return "several" }

func c16several(n int) *several {
	s := &several{M1: map[string]string{}, M2: map[string]int64{}, M3: map[string]float64{}, M4: map[string]time.Time{}}
	s.N.M = map[string]string{}
	for i := 0; i < n; i++ {
		s.S1 = append(s.S1, fmt.Sprintf("element %d", i))
		s.S2 = append(s.S2, int64(i)*-1000003)
		s.S3 = append(s.S3, i%3 == 1)
		s.S4 = append(s.S4, 1/float64(i+1))
		s.S5 = append(s.S5, mc.Epoch.Add(time.Duration(i)*time.Second+1))
		s.S6 = append(s.S6, time.Duration(i)*time.Millisecond+1)
		s.S7 = append(s.S7, uint8(i))
		k := fmt.Sprint(i)
		if i%3 == 1 {
			k = fmt.Sprintf("%c.%d", 'a'+i%26, i)
		}
		s.M1[k] = k
		s.M2[k] = int64(i)
		s.M3[k] = math.Sqrt(float64(i))
		s.M4[k] = mc.Epoch.Add(time.Duration(i))
		s.N.M[k] = "nested " + k
		s.N.S = append(s.N.S, i)
	}
	for i := range s.A {
		s.A[i] = int16(i * 7)
	}
	s.T = strings.Repeat("text\n", n)
	return s
}

func c16large(t *mc.T, n int) {
	for _, k := range []int{9, 10, 11, 16, 17, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, n - 1, n} {
		c16round(t, reflect.ValueOf(*c16several(k)))
	}
	c16round(t, reflect.ValueOf(*c16several(3))) // small after large
	for _, k := range []int{255, 256, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20} {
		long := strings.Repeat("x", k-1) + "y"
		c16round(t, reflect.ValueOf(sqltrace.SQLEvent{SQL: long, Tag: "t", ClientSend: mc.Epoch, ClientRecv: mc.Epoch.Add(1)}))
		c16round(t, reflect.ValueOf(ev2[map[string]string, string]{map[string]string{long[:min(k, 5000)]: "v", "k": long}, long}))
		as, err := appdash.MarshalEvent(appdash.Log(long))
		must(t, err, "MarshalEvent")
		var evs []appdash.Event
		must(t, appdash.UnmarshalEvents(as, &evs), "UnmarshalEvents")
		if len(evs) != 1 || reflect.ValueOf(evs[0]).FieldByName("Msg").String() != long {
			t.Fail("a log of %d bytes does not come back", k)
		}
	}
	// many events one after another, some of one type
	for i := 0; i < n; i++ {
		c16round(t, reflect.ValueOf(ev2[string, int64]{fmt.Sprint("event ", i), int64(i)}))
		c16round(t, reflect.ValueOf(ev3[string, []string, map[string]string]{fmt.Sprint(i), []string{"a", fmt.Sprint(i)}, map[string]string{fmt.Sprint(i): "x"}}))
		if i%10 == 0 {
			e := httptrace.ServerEvent{ServerRecv: mc.Epoch.Add(time.Duration(i)), ServerSend: mc.Epoch.Add(time.Duration(2 * i)), Route: fmt.Sprint("route ", i)}
			e.Request.Headers = map[string]string{"X": fmt.Sprint(i), fmt.Sprint("X-", i): "v"}
			e.Response.StatusCode = i
			c16round(t, reflect.ValueOf(e))
		}
	}
	mc.State("done")
}

func c17large(t *mc.T, n int) {
	evs := c17events()
	var want []appdash.Event
	have := map[string]bool{}
	for _, e := range evs {
		if !have[e.Schema()] {
			have[e.Schema()] = true
			want = append(want, e)
		}
	}
	big := httptrace.ClientEvent{ClientSend: mc.Epoch, ClientRecv: mc.Epoch.Add(time.Hour)}
	big.Request.Headers = map[string]string{}
	big.Response.Headers = map[string]string{}
	for i := 0; i < n/5; i++ {
		big.Request.Headers[fmt.Sprint("X-Header-", i)] = strings.Repeat("v", i%50)
		big.Response.Headers[fmt.Sprint("X-Header-", i)] = fmt.Sprint("of the response ", i)
	}
	if t.Choose(2, "many headers") == 1 {
		for i, e := range want {
			if _, ok := e.(httptrace.ClientEvent); ok {
				want[i] = big
			}
		}
	}
	as := c17marshal(t, want)
	own := len(as)
	var foreign appdash.Annotations
	for i := 0; i < n; i++ {
		foreign = append(foreign, hx.A(fmt.Sprintf("%c/foreign/%d", '!'+i%90, i), fmt.Sprint(i)))
	}
	var all appdash.Annotations
	switch t.Choose(4, "where") {
	case 0:
		all = append(foreign, as...)
	case 1:
		all = append(as, foreign...)
	case 2:
		for i := 0; i < n || i < own; i++ {
			if i < n {
				all = append(all, foreign[i])
			}
			if i < own {
				all = append(all, as[i])
			}
		}
	case 3: // those of the events backwards, spread evenly
		k := n/own + 1
		for i := 0; i < own; i++ {
			all = append(all, foreign[min(i*k, n):min((i+1)*k, n)]...)
			all = append(all, as[own-1-i])
		}
		// the same key again and again
		for i := 0; i < 300; i++ {
			all = append(all, hx.A("foreign again", fmt.Sprint(i)))
		}
	}
	c17expect(t, all, want, fmt.Sprintf("%d annotations", len(all)))
	// again and again
	for i := 0; i < 50; i++ {
		c17expect(t, c17marshal(t, want[i%len(want):]), want[i%len(want):], "again")
	}
	mc.State("done")
}

func c30large(t *mc.T, n int) {
	shape := t.Choose(hx.Shapes-1, "shape")
	l := hx.Large(7, shape, n)
	by := map[appdash.ID]*appdash.Trace{}
	var root *appdash.Trace
	for i, id := range l {
		x := &appdash.Trace{Span: appdash.Span{ID: id, Annotations: appdash.Annotations{hx.A("k", fmt.Sprint(i))}}}
		by[id.Span] = x
		if i == 0 {
			root = x
			continue
		}
		p := by[id.Parent]
		if p == nil {
			t.Fail("harness: the parent comes later")
		}
		p.Sub = append(p.Sub, x)
	}
	for _, id := range l {
		if g := root.FindSpan(id.Span); g != by[id.Span] {
			t.Fail("shape %d: looking for span %v among %d gives %v", shape, id, n, g)
		}
		// not above itself
		if id.Parent != 0 {
			if g := by[id.Span].FindSpan(id.Parent); g != nil {
				t.Fail("shape %d: below span %v there is its parent", shape, id)
			}
		}
	}
	for _, no := range []appdash.ID{7, 1 << 40, 12345} {
		if g := root.FindSpan(no); by[no] == nil && g != nil {
			t.Fail("shape %d: looking for the absent span %v gives %v", shape, no, g.ID)
		}
	}
	var want []string
	var walk func(x *appdash.Trace)
	walk = func(x *appdash.Trace) {
		if x == root {
			want = append(want, "Trace 7")
		} else {
			want = append(want, fmt.Sprintf("Span %x (parent %x)", uint64(x.ID.Span), uint64(x.ID.Parent)))
		}
		want = append(want, "k = "+string(x.Annotations[0].Value))
		for _, s := range x.Sub {
			walk(s)
		}
	}
	walk(root)
	var got []string
	for _, s := range strings.Split(strings.TrimRight(root.TreeString(), "\n"), "\n") {
		got = append(got, strings.TrimLeft(s, " |+-"))
	}
	if len(got) != len(want) {
		t.Fail("shape %d: the text of %d spans has %d lines and must have %d", shape, n, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			t.Fail("shape %d: line %d of the text is %q and must be %q", shape, i, got[i], want[i])
		}
	}
	// the name and the times among many annotations
	for _, at := range []int{0, 1, n / 2, n - 1} {
		var as appdash.Annotations
		from, to := mc.Epoch, mc.Epoch.Add(time.Hour)
		for i := 0; i < n; i++ {
			if i == at {
				as = append(as, hx.A("Name", "the name"))
				m, err := appdash.MarshalEvent(sqltrace.SQLEvent{SQL: "s", ClientSend: from.Add(time.Minute), ClientRecv: to})
				must(t, err, "MarshalEvent")
				as = append(as, m...)
			}
			if i == n-1-at {
				m, err := appdash.MarshalEvent(appdash.Timespan{S: from, E: from.Add(time.Second)})
				must(t, err, "MarshalEvent")
				as = append(as, m...)
			}
			as = append(as, hx.A(fmt.Sprint("other", i), fmt.Sprint(i)))
		}
		x := &appdash.Trace{Span: appdash.Span{ID: hx.ID(1, 2, 3), Annotations: as}}
		if g := x.Name(); g != "the name" {
			t.Fail("with %d annotations the name, at %d, is %q", n, at, g)
		}
		ev, err := x.TimespanEvent()
		must(t, err, "TimespanEvent")
		if !ev.Start().Equal(from) || !ev.End().Equal(to) {
			t.Fail("with %d annotations the time span is %v - %v and must be %v - %v", n, ev.Start(), ev.End(), from, to)
		}
	}
	mc.State(fmt.Sprint(shape))
}
