package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
	vnet "verif/shim/net"
	vtls "verif/shim/tls"
)

// recv is a call of the collector of a server.
type recv struct {
	id   appdash.SpanID
	anns string
	raw  []appdash.Annotation // as the collector got them
}

func (r *recv) String() string {
	return fmt.Sprintf("%x/%x/%x{%s}", uint64(r.id.Trace), uint64(r.id.Span), uint64(r.id.Parent), r.anns)
}

func recvOf(id appdash.SpanID, as []appdash.Annotation) *recv { return &recv{id, hx.Anns(as), nil} }

// rsink is the collector of a server.
type rsink struct {
	fail func(id appdash.SpanID) error
}

func (s rsink) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	r := recvOf(id, as)
	r.raw = as
	mc.Rec(r)
	if s.fail != nil {
		return s.fail(id)
	}
	return nil
}

func received() (l []*recv) {
	for _, r := range mc.Records() {
		if x, ok := r.(*recv); ok {
			l = append(l, x)
		}
	}
	return
}

func recvList(l []*recv) string {
	var s []string
	for _, r := range l {
		x := r.String()
		if len(x) > 300 {
			x = fmt.Sprintf("%s...(%d bytes)", x[:300], len(x))
		}
		s = append(s, x)
	}
	return strings.Join(s, "\n")
}

const c11addr = "127.0.0.1:7701"

// c11server starts a collector server.
func c11server(t *mc.T, c appdash.Collector, useTLS, verbose bool) *appdash.CollectorServer {
	return c11serverOf(t, c, useTLS, verbose, verbose)
}

func c11serverOf(t *mc.T, c appdash.Collector, useTLS, debug, trace bool) *appdash.CollectorServer {
	var l vnet.Listener
	var err error
	if useTLS {
		l, err = vtls.Listen("tcp", c11addr, &vtls.Config{Certificates: make([]vtls.Certificate, 1)})
	} else {
		l, err = vnet.Listen("tcp", c11addr)
	}
	must(t, err, "Listen")
	cs := appdash.NewServer(l, c)
	cs.Debug, cs.Trace = debug, trace
	t.Go("server", cs.Start)
	return cs
}

func c11client(useTLS bool) *appdash.RemoteCollector {
	if useTLS {
		return appdash.NewTLSRemoteCollector(c11addr, nil)
	}
	return appdash.NewRemoteCollector(c11addr)
}

// packetSize is the size of the protobuf message.
func packetSize(as []appdash.Annotation) int {
	n := 2 + 3*9
	for _, a := range as {
		n += 2 + 1 + uvlen(len(a.Key)) + len(a.Key)
		if a.Value != nil {
			n += 1 + uvlen(len(a.Value)) + len(a.Value)
		}
	}
	return n
}

func uvlen(n int) int { return binary.PutUvarint(make([]byte, 10), uint64(n)) }

var c11u64 = []uint64{0, 1, 0x7f, 0x80, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0)}

// c11anns are annotation lists.
func c11anns() [][]appdash.Annotation {
	big := strings.Repeat("x", 300)
	var all string
	for i := 0; i < 256; i++ {
		all += string([]byte{byte(i)})
	}
	return [][]appdash.Annotation{
		nil,
		{},
		{{Key: "", Value: nil}},
		{{Key: "", Value: []byte{}}},
		{{Key: "k", Value: nil}, {Key: "k", Value: []byte("v")}},
		{{Key: "k", Value: []byte("1")}, {Key: "k", Value: []byte("2")}, {Key: "k", Value: []byte("1")}},
		{{Key: "\x00", Value: []byte{0}}, {Key: all[:128], Value: []byte(all)}},
		{{Key: "\xff\xfe not utf-8", Value: []byte("\xff\xfe")}},
		{{Key: "日本語", Value: []byte("値")}},
		{{Key: big, Value: []byte(big)}, {Key: "after", Value: []byte("big")}},
		{{Key: "z", Value: []byte("1")}, {Key: "a", Value: []byte("2")}, {Key: "m", Value: []byte("3")}, {Key: "", Value: []byte("4")}, {Key: "Schema:x", Value: nil}},
	}
}

// C11: what is sent is what is collected.
func init() {
	kit.Prop("C11", func(tier string) (us []*kit.Unit) {
		for _, useTLS := range []bool{false, true} {
			useTLS := useTLS
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("values/tls=%v", useTLS),
				Rule: fmt.Sprintf("the product of span IDs over %x (trace, span, parent) and %d annotation lists, one packet per execution; and pairs of lists", c11u64, len(c11anns())),
				Body: func(t *mc.T) { c11values(t, useTLS) },
			}, &kit.Unit{
				Name: fmt.Sprintf("pairs/tls=%v", useTLS),
				Rule: "all sequences of 3 packets with annotation lists from the list, for the same or different spans",
				Body: func(t *mc.T) { c11pairs(t, useTLS) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "sizes",
			Rule: "every message size within 3 bytes of 127, 128, 2^12, 2^14, 2^16, 2^20-1 and exactly 2^20 bytes, in one annotation or many, followed by a small packet",
			Body: c11sizes,
		})
		sb := 2
		if tier == "thorough" {
			sb = 3
		}
		for k := 0; k < 3; k++ {
			k := k
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("splits/%d", k),
				Rule: fmt.Sprintf("two packets (variant %d) with <= %d short reads of every possible length at every place", k, sb),
				Opt:  mc.Options{Bound: sb, ShortRead: true, NoPreempt: true},
				Body: func(t *mc.T) { c11splits(t, k, 2) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "splits/all",
			Rule: "all divisions of the stream of the smallest possible packet's first bytes: the network delivers it byte by byte, and in all ways of 2 pieces per write",
			Body: c11bytes,
		}, &kit.Unit{
			Name: "splits/large",
			Rule: "packets larger than the read buffer with <= 2 short reads",
			Opt:  mc.Options{Bound: 2, ShortRead: true, NoPreempt: true},
			Body: func(t *mc.T) { c11splits(t, 3, 2) },
		})
		return
	})
}

func c11expect(t *mc.T, want []*recv) {
	mc.AfterIdle()
	if g, w := recvList(received()), recvList(want); g != w {
		t.Fail("the server has collected\n%s\nand must have\n%s", g, w)
	}
	for _, r := range received() {
		if a := hx.Anns(r.raw); a != r.anns {
			t.Fail("annotations that the server's collector was given have changed later: %.300s were %.300s", a, r.anns)
		}
	}
	mc.State(recvList(want))
}

func c11values(t *mc.T, useTLS bool) {
	c11server(t, rsink{}, useTLS, false)
	rc := c11client(useTLS)
	anns := c11anns()
	id := appdash.SpanID{}
	var as []appdash.Annotation
	n := len(c11u64)
	if t.Choose(2, "product") == 0 {
		id = hx.ID(c11u64[t.Choose(n, "trace")], c11u64[t.Choose(n, "span")], c11u64[t.Choose(n, "parent")])
		as = anns[t.Choose(3, "annotations")*3]
	} else {
		i := t.Choose(n, "id")
		id = hx.ID(c11u64[i], c11u64[(i+3)%n], c11u64[(i+5)%n])
		as = anns[t.Choose(len(anns), "annotations")]
		as = append(append([]appdash.Annotation(nil), as...), anns[t.Choose(len(anns), "more annotations")]...)
	}
	want := recvOf(id, as)
	must(t, rc.Collect(id, as...), "Collect")
	c11expect(t, []*recv{want})
	must(t, rc.Close(), "Close")
	c11expect(t, []*recv{want})
}

func c11pairs(t *mc.T, useTLS bool) {
	c11server(t, rsink{}, useTLS, false)
	rc := c11client(useTLS)
	anns := c11anns()
	var want []*recv
	for i := 0; i < 3; i++ {
		id := hx.ID(1, uint64(10+t.Choose(2, "span")), 0)
		as := anns[t.Choose(len(anns), "annotations")]
		want = append(want, recvOf(id, as))
		must(t, rc.Collect(id, as...), "Collect")
	}
	c11expect(t, want)
}

func c11sizes(t *mc.T) {
	c11server(t, rsink{}, false, false)
	rc := c11client(false)
	base := []int{127, 128, 1 << 12, 1 << 14, 1 << 16, 1<<20 - 3}[t.Choose(6, "size")]
	size := base + t.Choose(7, "offset") - 3
	var as []appdash.Annotation
	if t.Choose(2, "many") == 1 {
		for packetSize(as)+400 < size && len(as) < 2000 {
			as = append(as, hx.A("key", strings.Repeat("y", 90)))
		}
	}
	as = append(as, hx.A("k", ""))
	last := &as[len(as)-1]
	for packetSize(as) < size {
		d := size - packetSize(as)
		last.Value = append(last.Value, make([]byte, d)...)
		for packetSize(as) > size {
			last.Value = last.Value[:len(last.Value)-1]
		}
		if d < 3 && packetSize(as) < size {
			last.Key += "k" // the length prefix has jumped
		}
	}
	for i := range last.Value {
		last.Value[i] = byte(i * 7)
	}
	if packetSize(as) > 1<<20 {
		return
	}
	id := hx.ID(1, 2, 3)
	w := []*recv{recvOf(id, as), recvOf(hx.ID(1, 3, 2), nil)}
	must(t, rc.Collect(id, as...), "Collect")
	must(t, rc.Collect(hx.ID(1, 3, 2)), "Collect")
	c11expect(t, w)
}

func c11splits(t *mc.T, variant, n int) {
	c11server(t, rsink{}, false, false)
	rc := c11client(false)
	var want []*recv
	for i := 0; i < n; i++ {
		id := hx.ID(1, uint64(10+i), 0x0b0c2b2c00010203)
		var as []appdash.Annotation
		switch variant {
		case 1:
			as = []appdash.Annotation{hx.A("key", "value")}
		case 2:
			as = []appdash.Annotation{hx.A("", ""), hx.A("a", "\x0b\x0c"), hx.A("b", strings.Repeat("z", 100))}
		case 3:
			as = []appdash.Annotation{hx.A("a", strings.Repeat("0123456789", 600)), hx.A("b", strings.Repeat("z", 5000))}
		}
		want = append(want, recvOf(id, as))
		must(t, rc.Collect(id, as...), "Collect")
		if i == 0 && t.Choose(2, "pause") == 1 {
			mc.AfterIdle()
		}
	}
	mc.AfterIdle()
	mc.Calm()
	c11expect(t, want)
}

// c11bytes feeds the bytes that a client sends through a proxy that divides them.
func c11bytes(t *mc.T) {
	c11server(t, rsink{}, false, false)
	l, err := vnet.Listen("tcp", "127.0.0.1:7702")
	must(t, err, "Listen")
	rc := appdash.NewRemoteCollector("127.0.0.1:7702")
	id := hx.ID(0x0b, 0x0c, 0x2b)
	as := []appdash.Annotation{hx.A("k", "v")}
	want := []*recv{recvOf(id, as), recvOf(id, nil)}
	must(t, rc.Collect(id, as...), "Collect")
	must(t, rc.Collect(id), "Collect")
	in, err := l.Accept()
	must(t, err, "Accept")
	buf := make([]byte, 1000)
	n := 0
	for n < packetSize(as)+1+packetSize(nil)+1 {
		k, err := in.Read(buf[n:])
		must(t, err, "Read")
		n += k
	}
	out, err := vnet.Dial("tcp", c11addr)
	must(t, err, "Dial")
	mode := t.Choose(3, "pieces")
	cut1, cut2, cut3 := 0, 0, 0
	if mode == 1 {
		cut1 = t.Choose(n, "cut")
		cut2 = t.Choose(n, "cut")
	} else if mode == 2 {
		cut3 = 2 + t.Choose(5, "period")
	}
	from := 0
	for i := 1; i <= n; i++ {
		if i == n || mode == 0 || mode == 1 && (i == cut1 || i == cut2) || mode == 2 && i%cut3 == 0 {
			_, err := out.Write(buf[from:i])
			must(t, err, "Write")
			from = i
			mc.AfterIdle()
		}
	}
	c11expect(t, want)
}

// C12: connection failures.
func init() {
	kit.Prop("C12", func(tier string) (us []*kit.Unit) {
		faults, calls := 2, 3
		if tier == "thorough" {
			calls = 4
		}
		for _, useTLS := range []bool{false, true} {
			for v := 0; v < 4; v++ {
				useTLS, v, f := useTLS, v, faults
				if tier == "quick" && (useTLS || v == 3) || v == 2 {
					f = 1
				}
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("faults/tls=%v/%d", useTLS, v),
					Rule: fmt.Sprintf("%d packets (variant %d) with <= %d failing dials and writes, every write cut after every number of bytes, with connections that break or stay usable", calls, v, f),
					Opt:  mc.Options{Bound: f, NetFault: true, NetTransient: true, NoPreempt: true},
					Body: func(t *mc.T) { c12(t, useTLS, v, calls) },
				})
			}
		}
		type cfg struct {
			threads []int
			warm    bool
			bound   int
			race    bool
		}
		cfgs := []cfg{{[]int{1, 1}, true, 3, false}, {[]int{1, 1}, false, 3, false}, {[]int{2, 1}, true, 2, false}, {[]int{1, 1, 1}, true, 2, false}, {[]int{1, 1}, true, 2, true}}
		if tier == "thorough" {
			cfgs = []cfg{{[]int{1, 1}, true, 4, false}, {[]int{1, 1}, false, 4, false}, {[]int{2, 1}, true, 3, false}, {[]int{1, 1, 1}, true, 3, false}, {[]int{2, 2}, true, 2, false}, {[]int{2, 1}, true, 2, true}}
		}
		for _, c := range cfgs {
			c := c
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("senders/%v/warm=%v/race=%v", c.threads, c.warm, c.race), Race: c.race,
				Rule: fmt.Sprintf("threads that send %v packets over one collector (connected before: %v): all combinations of <= %d delays, failing dials and failing writes, cut nowhere, after a byte, in the middle, before the last byte and after it", c.threads, c.warm, c.bound),
				Opt:  mc.Options{Bound: c.bound, Delay: true, NetFault: true, NetTransient: true, FewCuts: true},
				Body: func(t *mc.T) { c12senders(t, c.threads, c.warm) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "server restarts",
			Rule: "all sequences of 5 of: collect, the server closes the connection, the server goes away, comes back; with <= 1 failing dial or write",
			Opt:  mc.Options{Bound: 1, NetFault: true, NoPreempt: true},
			Body: c12restart,
		})
		return
	})
}

func c12packet(v, i int) (appdash.SpanID, []appdash.Annotation) {
	id := hx.ID(1, uint64(10+i), 0)
	switch v {
	case 1:
		return id, []appdash.Annotation{hx.A("k", fmt.Sprint(i))}
	case 2: // two annotations, larger
		return id, []appdash.Annotation{hx.A("k", fmt.Sprint(i)), hx.A("z", strings.Repeat(fmt.Sprint(i), 150))}
	case 3: // the same span again and again
		return hx.ID(1, 10, 0), []appdash.Annotation{hx.A("k", fmt.Sprint(i))}
	}
	return id, nil
}

func c12(t *mc.T, useTLS bool, v, calls int) {
	c11server(t, rsink{}, useTLS, false)
	rc := c11client(useTLS)
	rc.Debug = v == 1
	acked := map[string]bool{}
	sent := map[string]int{} // upper bound of deliveries
	for i := 0; i < calls; i++ {
		id, as := c12packet(v, i)
		w := recvOf(id, as).String()
		f, d, c := mc.NetFaults(), mc.NetDials(), mc.NetConns()
		err := rc.Collect(id, as...)
		f, d = mc.NetFaults()-f, mc.NetDials()-d
		if d > 1 {
			t.Fail("one Collect dials %d times", d)
		}
		// A connection that was there before may break without consequence.
		if f == 0 && err != nil {
			t.Fail("Collect %d gives %v, nothing has failed in it", i, err)
		}
		if f == 1 && c > 0 && d == 1 && mc.NetConns() > c && i > 0 && acked[c12prev(v, i)] && err != nil {
			t.Fail("Collect %d gives %v: a single failed write on the old connection must be repaired by a new one", i, err)
		}
		if err != nil && f == 0 {
			t.Fail("Collect %d gives error %v", i, err)
		}
		sent[w] = 1 + d
		if err == nil {
			acked[w] = true
		}
		if v < 3 || t.Choose(2, "pause") == 1 {
			mc.AfterIdle()
		}
	}
	mc.AfterIdle()
	n := map[string]int{}
	for _, r := range received() {
		s := r.String()
		n[s]++
		if sent[s] == 0 {
			t.Fail("the server has collected %s, which was not sent", s)
		}
		if n[s] > sent[s] {
			t.Fail("the server has collected %s %d times, it was written at most %d times", s, n[s], sent[s])
		}
	}
	st := ""
	for w := range acked {
		if n[w] == 0 {
			t.Fail("Collect of %s returned nil, and the server has not collected it:\n%s", w, recvList(received()))
		}
	}
	for i := 0; i < calls; i++ {
		id, as := c12packet(v, i)
		w := recvOf(id, as).String()
		st += fmt.Sprint(acked[w], n[w], " ")
	}
	mc.State(st)
}

// c12senders has several threads share a collector whose connection fails.
func c12senders(t *mc.T, threads []int, warm bool) {
	c11server(t, rsink{}, false, false)
	rc := c11client(false)
	sent := map[string]bool{}
	acked := map[string]bool{}
	pkt := func(k, j int) (appdash.SpanID, []appdash.Annotation, string) {
		id, as := hx.ID(uint64(1+k), uint64(10+j), 0), []appdash.Annotation{hx.A("k", fmt.Sprint(k, j))}
		return id, as, recvOf(id, as).String()
	}
	errs := 0
	if warm {
		id, as, w := pkt(9, 0)
		sent[w] = true
		if rc.Collect(id, as...) == nil {
			acked[w] = true
		} else {
			errs++
		}
	}
	got := make([][]error, len(threads))
	var ts []*mc.T
	for k, n := range threads {
		k, n := k, n
		for j := 0; j < n; j++ {
			_, _, w := pkt(k, j)
			sent[w] = true
		}
		ts = append(ts, t.Go(fmt.Sprint("sender", k), func() {
			for j := 0; j < n; j++ {
				id, as, _ := pkt(k, j)
				got[k] = append(got[k], rc.Collect(id, as...))
			}
		}))
	}
	t.Join(ts...)
	mc.AfterIdle()
	for k := range got {
		for j, err := range got[k] {
			_, _, w := pkt(k, j)
			if err == nil {
				acked[w] = true
			} else {
				errs++
			}
		}
	}
	f := mc.NetFaults()
	if errs > f {
		t.Fail("%d collections fail, only %d dials and writes have failed", errs, f)
	}
	n, more := map[string]int{}, 0
	for _, r := range received() {
		s := r.String()
		if n[s]++; n[s] > 1 {
			more++
		}
		if !sent[s] {
			t.Fail("the server has collected %s, which was not sent", s)
		}
	}
	if more > f {
		t.Fail("%d spans are collected twice, only %d dials and writes have failed:\n%s", more, f, recvList(received()))
	}
	for w := range acked {
		if n[w] == 0 {
			t.Fail("Collect of %s returned nil, and the server has not collected it:\n%s", w, recvList(received()))
		}
	}
	mc.State(fmt.Sprint(len(acked), errs, more, f))
}

func c12prev(v, i int) string {
	id, as := c12packet(v, i-1)
	return recvOf(id, as).String()
}

func c12restart(t *mc.T) {
	l, err := vnet.Listen("tcp", c11addr)
	must(t, err, "Listen")
	up := true
	serve := func() {
		cs := appdash.NewServer(l, rsink{})
		t.Go("server", cs.Start)
	}
	serve()
	rc := c11client(false)
	sent := map[string]int{}
	acked := map[string]bool{}
	for i := 0; i < 5; i++ {
		switch t.Choose(3, "step") {
		case 0:
			id, as := c12packet(1, i)
			w := recvOf(id, as).String()
			f, d := mc.NetFaults(), mc.NetDials()
			err := rc.Collect(id, as...)
			f, d = mc.NetFaults()-f, mc.NetDials()-d
			if err == nil && !up && f == 0 {
				t.Fail("Collect gives nil, the server is away")
			}
			if err != nil && up && f == 0 {
				t.Fail("Collect gives %v, the server is there and nothing has failed", err)
			}
			sent[w] = 1 + d
			if err == nil {
				acked[w] = true
			}
			mc.AfterIdle()
		case 1: // the connection breaks
			for c := 0; c < mc.NetConns(); c++ {
				mc.NetBreak(c)
			}
			mc.AfterIdle()
		case 2:
			if up {
				mc.NetReset()
				up = false
				mc.AfterIdle()
			} else {
				l, err = vnet.Listen("tcp", c11addr)
				must(t, err, "Listen")
				serve()
				up = true
			}
		}
	}
	n := map[string]int{}
	for _, r := range received() {
		s := r.String()
		n[s]++
		if n[s] > sent[s] {
			t.Fail("the server has collected %s %d times, it was written %d times", s, n[s], sent[s])
		}
	}
	for w := range acked {
		if n[w] == 0 {
			t.Fail("%s was acknowledged and is not collected", w)
		}
	}
	mc.State(fmt.Sprint(len(n), len(acked), up))
}

var _ = time.Second
