package main

import (
	"fmt"
	"sort"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
	vnet "verif/shim/net"
)

// C13: concurrent senders.
func init() {
	kit.Prop("C13", func(tier string) (us []*kit.Unit) {
		thorough := tier == "thorough"
		shared := func(name string, race bool, bound int, threads []int, closes int, debug, tls, delay bool) {
			us = append(us, &kit.Unit{
				Name: name, Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions (units named delay: other choices of the next thread) of goroutines that send %v packets over one remote collector, %d concurrent Close calls, debug output: %v, and the goroutines of the server; packets whole, exactly once and in order, nil errors, a collection after Close reconnects", bound, threads, closes, debug),
				Opt:  mc.Options{Bound: bound, Delay: delay},
				Body: func(t *mc.T) { c13shared(t, threads, closes, debug, tls) },
			})
		}
		clients := func(name string, race bool, bound int, threads []int, debug, tls bool) {
			us = append(us, &kit.Unit{
				Name: name, Race: race,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of clients (own connections) that send %v packets to one server into one memory store, debug output: %v", bound, threads, debug),
				Opt:  mc.Options{Bound: bound},
				Body: func(t *mc.T) { c13clients(t, threads, debug, tls) },
			})
		}
		b := 2
		if thorough {
			b = 3
		}
		cb := 1
		if thorough {
			cb = 0
		}
		for _, race := range []bool{false, true} {
			bb := b
			if race {
				bb--
			}
			shared("shared/1+1", race, bb, []int{1, 1}, 0, false, false, false)
			shared("shared/2+1", race, bb, []int{2, 1}, 0, false, false, false)
			shared("shared/1+1/tls", race, bb, []int{1, 1}, 0, false, true, false)
			shared("shared/1+1/close", race, bb-cb, []int{1, 1}, 1, false, false, false)
			shared("shared/2/close", race, bb, []int{2}, 1, false, false, false)
			shared("shared/1/close 2", race, bb, []int{1}, 2, false, false, false)
			shared("shared/1+1/debug", race, bb-1, []int{1, 1}, 0, true, false, false)
			shared("delay/1+1+1", race, bb+1, []int{1, 1, 1}, 0, false, false, true)
			shared("delay/2+2/close", race, bb+1, []int{2, 2}, 1, false, false, true)
			shared("delay/1+1/debug/close", race, bb+1, []int{1, 1}, 1, true, false, true)
			clients("clients/1+1", race, bb-1, []int{1, 1}, false, false)
			clients("clients/2+1/debug", race, bb-cb, []int{2, 1}, true, false)
			clients("clients/1+1/tls", race, bb-1, []int{1, 1}, false, true)
			us = append(us, &kit.Unit{
				Name: "clients/trace only", Race: race,
				Rule: fmt.Sprintf("as clients/1+1, with Trace and without Debug (the connections are the first to log); schedules with <= %d preemptions", bb-1),
				Opt:  mc.Options{Bound: bb - 1},
				Body: func(t *mc.T) { c13clientsOf(t, []int{1, 1}, false, true, false) },
			}, &kit.Unit{
				Name: "clients/garbage", Race: race,
				Rule: fmt.Sprintf("two connections that send garbage (the connections are the first to log) and a client that sends one packet; schedules with <= %d other choices of the next thread", bb+1),
				Opt:  mc.Options{Bound: bb + 1, Delay: true},
				Body: c13garbage,
			})
		}
		if thorough {
			shared("shared/2+2", false, 2, []int{2, 2}, 0, false, false, false)
			shared("shared/1+1+1", false, 2, []int{1, 1, 1}, 0, false, false, false)
			shared("shared/2+1/close", false, 2, []int{2, 1}, 1, false, false, false)
			clients("clients/1+1+1", false, 1, []int{1, 1, 1}, false, false)
		}
		return
	})
}

func c13packet(th, i int) (appdash.SpanID, []appdash.Annotation) {
	return hx.ID(uint64(th+1), uint64(100*(th+1)+i), uint64(i)), []appdash.Annotation{
		hx.A(fmt.Sprintf("k%d", th), strings.Repeat(fmt.Sprint(i), 3+20*th)),
	}
}

func c13shared(t *mc.T, threads []int, closes int, debug, tls bool) {
	c11server(t, rsink{}, tls, debug)
	rc := c11client(tls)
	rc.Debug = debug
	var ths []*mc.T
	for th, n := range threads {
		th, n := th, n
		ths = append(ths, t.Go(fmt.Sprintf("sender %d", th), func() {
			for i := 0; i < n; i++ {
				id, as := c13packet(th, i)
				if err := rc.Collect(id, as...); err != nil {
					t.Fail("sender %d, packet %d: %v", th, i, err)
				}
			}
		}))
	}
	for i := 0; i < closes; i++ {
		ths = append(ths, t.Go("closer", func() {
			if err := rc.Close(); err != nil {
				t.Fail("Close: %v", err)
			}
		}))
	}
	t.Join(ths...)
	mc.Calm()
	if d := mc.NetDials(); d > 1+closes {
		t.Fail("the collector has dialled %d times", d)
	}
	c13check(t, threads, closes == 0, nil)
	// a collection after Close
	must(t, rc.Close(), "Close")
	id, as := c13packet(len(threads), 0)
	must(t, rc.Collect(id, as...), "Collect after Close")
	c13check(t, threads, closes == 0, []*recv{recvOf(id, as)})
	for c := 0; c < mc.NetConns()-1; c++ {
		if !mc.NetClosed(c, 0) {
			t.Fail("connection %d was left open", c)
		}
	}
}

// c13check compares what the server has collected with what was sent.
func c13check(t *mc.T, threads []int, ordered bool, more []*recv) {
	mc.AfterIdle()
	got := received()
	var want []string
	per := map[appdash.ID][]string{}
	for th, n := range threads {
		for i := 0; i < n; i++ {
			id, as := c13packet(th, i)
			s := recvOf(id, as).String()
			want = append(want, s)
			per[id.Trace] = append(per[id.Trace], s)
		}
	}
	for _, m := range more {
		want = append(want, m.String())
	}
	var have []string
	pg := map[appdash.ID][]string{}
	for _, r := range got {
		have = append(have, r.String())
		pg[r.id.Trace] = append(pg[r.id.Trace], r.String())
	}
	order := strings.Join(have, "\n")
	sort.Strings(have)
	sort.Strings(want)
	if g, w := strings.Join(have, "\n"), strings.Join(want, "\n"); g != w {
		t.Fail("the server has collected\n%s\nsent was\n%s", g, w)
	}
	if ordered {
		for tr, l := range per {
			if g, w := strings.Join(pg[tr], "\n"), strings.Join(l, "\n"); g != w {
				t.Fail("packets of one goroutine are collected in the order\n%s\nsent was\n%s", g, w)
			}
		}
	}
	mc.State(order)
}

func c13garbage(t *mc.T) {
	ms := appdash.NewMemoryStore()
	c11server(t, ms, false, false)
	var ths []*mc.T
	for i := 0; i < 2; i++ {
		i := i
		ths = append(ths, t.Go("garbage", func() {
			c, err := vnet.Dial("tcp", c11addr)
			must(t, err, "Dial")
			c.Write([]byte{3, byte(i + 1), 0xff, 0xff})
			c.Close()
		}))
	}
	id, as := c13packet(0, 0)
	ths = append(ths, t.Go("client", func() {
		rc := c11client(false)
		must(t, rc.Collect(id, as...), "Collect")
		must(t, rc.Close(), "Close")
	}))
	t.Join(ths...)
	mc.AfterIdle()
	mc.Calm()
	m := hx.NewM()
	m.Collect(id, as...)
	if e := hx.CheckStore(ms, m, 1); e != "" {
		t.Fail("%s", e)
	}
	for c := 0; c < mc.NetConns(); c++ {
		if !mc.NetClosed(c, 1) {
			t.Fail("the server has not closed connection %d", c)
		}
	}
	mc.State(m.Canon())
}

func c13clients(t *mc.T, threads []int, debug, tls bool) {
	c13clientsOf(t, threads, debug, debug, tls)
}

func c13clientsOf(t *mc.T, threads []int, debug, trace, tls bool) {
	ms := appdash.NewMemoryStore()
	c11serverOf(t, ms, tls, debug, trace)
	var ths []*mc.T
	for th, n := range threads {
		th, n := th, n
		rc := c11client(tls)
		rc.Debug = debug
		ths = append(ths, t.Go(fmt.Sprintf("client %d", th), func() {
			for i := 0; i < n; i++ {
				id, as := c13packet(th, i)
				if err := rc.Collect(id, as...); err != nil {
					t.Fail("client %d, packet %d: %v", th, i, err)
				}
			}
			if err := rc.Close(); err != nil {
				t.Fail("Close: %v", err)
			}
		}))
	}
	t.Join(ths...)
	mc.AfterIdle()
	mc.Calm()
	m := hx.NewM()
	for th, n := range threads {
		for i := 0; i < n; i++ {
			id, as := c13packet(th, i)
			m.Collect(id, as...)
		}
	}
	trs, err := ms.Traces(appdash.TracesOpts{})
	must(t, err, "Traces")
	var l []string
	for _, tr := range trs {
		l = append(l, hx.Canon(tr))
	}
	sort.Strings(l)
	if g, w := strings.Join(l, "\n"), m.Canon(); g != w {
		t.Fail("the store of the server holds\n%s\nsent was\n%s", g, w)
	}
	for c := 0; c < mc.NetConns(); c++ {
		if !mc.NetClosed(c, 1) {
			t.Fail("the server has not closed connection %d, whose client is gone", c)
		}
	}
	mc.State(m.Canon())
}

var _ = vnet.Dial
