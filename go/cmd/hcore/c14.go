package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"

	"github.com/gogo/protobuf/proto"
	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
	vnet "verif/shim/net"
)

// The reference decoder has its own message types, made from collector.proto.
type refPacket struct {
	Spanid           *refSpanID `protobuf:"group,1,req,name=SpanID"`
	Annotation       []*refAnn  `protobuf:"group,5,rep,name=Annotation"`
	XXX_unrecognized []byte     `json:"-"`
}

func (m *refPacket) Reset()         { *m = refPacket{} }
func (m *refPacket) String() string { return "" }
func (*refPacket) ProtoMessage()    {}

type refSpanID struct {
	Trace            *uint64 `protobuf:"fixed64,2,req,name=trace"`
	Span             *uint64 `protobuf:"fixed64,3,req,name=span"`
	Parent           *uint64 `protobuf:"fixed64,4,opt,name=parent"`
	XXX_unrecognized []byte  `json:"-"`
}

func (m *refSpanID) Reset()         { *m = refSpanID{} }
func (m *refSpanID) String() string { return "" }
func (*refSpanID) ProtoMessage()    {}

type refAnn struct {
	Key              *string `protobuf:"bytes,6,req,name=key"`
	Value            []byte  `protobuf:"bytes,7,opt,name=value"`
	XXX_unrecognized []byte  `json:"-"`
}

func (m *refAnn) Reset()         { *m = refAnn{} }
func (m *refAnn) String() string { return "" }
func (*refAnn) ProtoMessage()    {}

const c14limit = 1 << 20

// refDecode decodes a stream: the packets before the first malformed one, and whether there is one.
func refDecode(b []byte) (l []*recv, malformed bool) {
	r := bytes.NewReader(b)
	for {
		at := r.Len()
		n, err := binary.ReadUvarint(r)
		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return l, false // (the stream ends: nothing, or a part of a packet)
		}
		if err != nil || n > c14limit {
			return l, true
		}
		if uint64(r.Len()) < n {
			return l, false
		}
		_ = at
		d := make([]byte, n)
		io.ReadFull(r, d)
		var p refPacket
		if proto.Unmarshal(d, &p) != nil || p.Spanid == nil || p.Spanid.Trace == nil || p.Spanid.Span == nil {
			return l, true
		}
		id := hx.ID(*p.Spanid.Trace, *p.Spanid.Span, 0)
		if p.Spanid.Parent != nil {
			id.Parent = appdash.ID(*p.Spanid.Parent)
		}
		var as []appdash.Annotation
		for _, a := range p.Annotation {
			if a.Key == nil {
				return l, true
			}
			as = append(as, appdash.Annotation{Key: *a.Key, Value: a.Value})
		}
		l = append(l, recvOf(id, as))
	}
}

func fix64(tag byte, v uint64) []byte {
	return append([]byte{tag}, binary.LittleEndian.AppendUint64(nil, v)...)
}

func cat(l ...[]byte) (r []byte) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

func frame(p []byte) []byte { return append(binary.AppendUvarint(nil, uint64(len(p))), p...) }

// c14packet is an encoded packet.
func c14packet(parent bool, anns int) []byte {
	p := cat([]byte{0x0b}, fix64(0x11, 7), fix64(0x19, 8))
	if parent {
		p = append(p, fix64(0x21, 9)...)
	}
	p = append(p, 0x0c)
	for i := 0; i < anns; i++ {
		p = append(p, 0x2b, 0x32, 1, 'k', 0x3a, 2, 'v', byte('0'+i), 0x2c)
	}
	return p
}

// C14: a client that sends anything.
func init() {
	kit.Prop("C14", func(tier string) (us []*kit.Unit) {
		thorough := tier == "thorough"
		seq := mc.Options{NoPreempt: true}
		add := func(name, rule string, verbose bool, gen func(t *mc.T) []byte) {
			us = append(us, &kit.Unit{Name: name, Rule: rule + "; a healthy client before, during and after, and a new one", Opt: seq,
				Body: func(t *mc.T) { c14(t, gen(t), verbose) }})
		}
		bases := [][]byte{
			cat(frame(c14packet(true, 1)), frame(c14packet(false, 0))),
			cat(frame(c14packet(false, 2)), frame(c14packet(true, 0))),
		}
		for n, base := range bases {
			base := base
			for _, verbose := range []bool{false, true} {
				if verbose && n == 1 && !thorough {
					continue
				}
				for part := 0; part < 4; part++ {
					part := part
					add(fmt.Sprintf("edits/%d/verbose=%v/%d", n, verbose, part),
						fmt.Sprintf("a stream of two packets (%d bytes): truncated at every byte; every byte replaced by all 256 values; all 256 values inserted at every place; every byte deleted (positions = %d mod 4)", len(base), part),
						verbose, func(t *mc.T) []byte {
							i := t.Choose((len(base)+3-part)/4, "position")*4 + part
							any := func() byte { return byte(t.Choose(16, "high")<<4 | t.Choose(16, "low")) }
							switch t.Choose(4, "edit") {
							case 0:
								b := append([]byte(nil), base...)
								b[i] = any()
								return b
							case 1:
								return cat(base[:i], []byte{any()}, base[i:])
							case 2:
								return base[:i]
							default:
								return cat(base[:i], base[i+1:])
							}
						})
				}
			}
		}
		alpha := []byte{0x00, 0x01, 0x02, 0x04, 0x0b, 0x0c, 0x2b, 0x2c, 0x80, 0xff}
		n := 4
		if thorough {
			n = 5
		}
		for _, framed := range []bool{false, true} {
			framed := framed
			for f := range alpha {
				f := f
				if thorough || f%2 == 0 || framed {
					add(fmt.Sprintf("strings/framed=%v/%d", framed, f),
						fmt.Sprintf("all strings of up to %d bytes over % x (first fixed), with a correct length in front: %v", n, alpha, framed),
						f%2 == 1, func(t *mc.T) []byte {
							b := []byte{alpha[f]}
							for len(b) < n {
								k := t.Choose(len(alpha)+1, "byte")
								if k == 0 {
									break
								}
								b = append(b, alpha[k-1])
							}
							if framed {
								return cat(frame(c14packet(true, 1)), frame(b), frame(c14packet(true, 0)))
							}
							return b
						})
				}
			}
		}
		tokens := [][]byte{
			{0x0b}, {0x0c}, fix64(0x11, 1), fix64(0x19, 2), fix64(0x21, 3),
			{0x2b}, {0x2c}, {0x32, 1, 'k'}, {0x3a, 1, 'v'}, {0x32, 0}, {0x3a, 0x80},
			{0x40, 1}, {0x4b}, {0x4c}, {0x13}, {0x0a, 1, 0}, {0x18, 5},
		}
		ids := cat([]byte{0x0b}, fix64(0x11, 1), fix64(0x19, 2))
		tn := 4
		if thorough {
			tn = 5
		}
		prefixes := [][]byte{nil, {0x0b}, cat([]byte{0x0b}, fix64(0x11, 1)), ids, append(append([]byte(nil), ids...), 0x0c),
			append(append([]byte(nil), ids...), 0x0c, 0x2b), append(append([]byte(nil), ids...), 0x0c, 0x2b, 0x32, 1, 'k')}
		for i, pre := range prefixes {
			pre := pre
			add(fmt.Sprintf("tokens/%d", i),
				fmt.Sprintf("a packet with a correct length, made of the beginning % x and all sequences of up to %d of %d tokens of the wire format (starts and ends of groups, all fields, empty ones, unknown fields and groups, fields of a wrong type, wrong lengths), then a valid packet", pre, tn-1, len(tokens)),
				i%2 == 0, func(t *mc.T) []byte {
					b := append([]byte(nil), pre...)
					for i := 0; i < tn-1; i++ {
						k := t.Choose(len(tokens)+1, "token")
						if k == 0 {
							break
						}
						b = append(b, tokens[k-1]...)
					}
					return cat(frame(b), frame(c14packet(true, 1)))
				})
		}
		var lens [][]byte
		for _, v := range []uint64{0, 1, 0x7f, 0x80, 0x3fff, 0x4000, c14limit - 1, c14limit, c14limit + 1, 1 << 21, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 5, ^uint64(0)} {
			lens = append(lens, binary.AppendUvarint(nil, v))
		}
		ff := bytes.Repeat([]byte{0xff}, 12)
		lens = append(lens, ff[:5], ff[:9], append(append([]byte(nil), ff[:9]...), 1), append(append([]byte(nil), ff[:9]...), 2), append(append([]byte(nil), ff[:9]...), 0x7f), ff[:11], append(append([]byte(nil), bytes.Repeat([]byte{0x80}, 9)...), 0), append(append([]byte(nil), bytes.Repeat([]byte{0x80}, 20)...), 0), []byte{0xa1, 0x80, 0x00}, []byte{0xa1, 0x00})
		add("lengths", "length prefixes at every boundary up to 64 bits, overlong, overflowing and non-minimal ones, with nothing, one byte, a packet, and more bytes than the limit behind them; alone and after a valid packet", false,
			func(t *mc.T) []byte {
				l := lens[t.Choose(len(lens), "length")]
				var rest []byte
				switch t.Choose(5, "rest") {
				case 1:
					rest = []byte{0}
				case 2:
					rest = c14packet(true, 1)
				case 3:
					rest = cat(c14packet(true, 0), make([]byte, 300))
				case 4:
					rest = make([]byte, c14limit+10)
				}
				b := cat(l, rest)
				if t.Choose(2, "after a packet") == 1 {
					b = cat(frame(c14packet(false, 1)), b)
				}
				return b
			})
		for _, max := range []int{c14limit, c14limit + 1} {
			max := max
			add(fmt.Sprintf("large/%d", max), "a packet of exactly the largest size and one byte more", false, func(t *mc.T) []byte {
				p := c14packet(true, 0)
				d := max - len(p) - 2 - 3 - 4
				p = cat(p, []byte{0x2b, 0x32, 1, 'k', 0x3a}, binary.AppendUvarint(nil, uint64(d)), make([]byte, d), []byte{0x2c})
				for len(p) < max {
					p = append(p, 0x40, 1) // unknown fields
				}
				return cat(frame(p[:max]), frame(c14packet(true, 1)))
			})
		}
		eb := 1
		if thorough {
			eb = 2
		}
		us = append(us, &kit.Unit{
			Name: "collector errors",
			Rule: "all patterns of failures of the server's collector over 3 packets of one client and 2 of another, in all orders; after a failure that client's packets are not collected on that connection, the other's are",
			Opt:  seq, Body: c14errors,
		}, &kit.Unit{
			Name: "accept errors",
			Rule: "the listener fails once, twice or three times at every position among two clients: later clients are served",
			Opt:  seq, Body: c14accept,
		})
		many := 600
		if thorough {
			many = 2500
		}
		for k := 0; k < 7; k++ {
			k := k
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("many clients/%d", k),
				Rule: fmt.Sprintf("%d clients one after another, of two kinds by turns (first kind fixed): go at once, after a packet, in the middle of a packet, after a malformed packet or length, after a packet whose collection fails, or stay; healthy clients before and afterwards (one schedule); the server keeps nothing of clients that are gone", many),
				Opt:  mc.Options{Delay: true}, Body: func(t *mc.T) { c14many(t, many, k) },
			})
		}
		for i, b := range [][]byte{{0xff}, {0x02, 0x0b, 0x0c}, frame(c14packet(false, 0)), cat(frame(c14packet(true, 1)), []byte{0x02, 0x0b, 0x0c})} {
			b := b
			for _, verbose := range []bool{false, true} {
				verbose := verbose
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("schedules/%d/verbose=%v", i, verbose),
					Rule: fmt.Sprintf("all schedules with <= %d preemptions of a client that sends % x and goes away, a healthy client, and the server", eb, b),
					Opt:  mc.Options{Bound: eb},
					Body: func(t *mc.T) { c14sched(t, b, verbose) },
				})
			}
		}
		return
	})
}

func c14want(t *mc.T, want []*recv) {
	if g, w := recvList(received()), recvList(want); g != w {
		t.Fail("the server has collected\n%s\nand must have\n%s", g, w)
	}
}

func c14(t *mc.T, stream []byte, verbose bool) {
	c11server(t, rsink{}, false, verbose)
	good := c11client(false)
	var want []*recv
	n := 0
	send := func(rc *appdash.RemoteCollector) {
		n++
		id, as := hx.ID(100, uint64(n), 1), []appdash.Annotation{hx.A("good", fmt.Sprint(n))}
		want = append(want, recvOf(id, as))
		must(t, rc.Collect(id, as...), "healthy client: Collect")
		mc.AfterIdle()
	}
	send(good)
	bad, err := vnet.Dial("tcp", c11addr)
	must(t, err, "Dial")
	bad.Write(stream)
	mc.AfterIdle()
	l, malformed := refDecode(stream)
	want = append(want, l...)
	c14want(t, want)
	if c := mc.NetClosed(1, 1); c != malformed {
		t.Fail("stream % x: first malformed packet: %v, connection closed by the server: %v", head(stream), malformed, c)
	}
	if mc.NetClosed(0, 1) {
		t.Fail("the server has closed the connection of the healthy client")
	}
	send(good)
	c14want(t, want)
	if malformed {
		bad.Write(frame(c14packet(true, 1))) // too late
		mc.AfterIdle()
	}
	bad.Close()
	mc.AfterIdle()
	if !mc.NetClosed(1, 1) {
		t.Fail("stream % x: the client is gone and the server keeps the connection", head(stream))
	}
	send(c11client(false))
	send(good)
	c14want(t, want)
	if mc.NetDials() != 3 {
		t.Fail("the healthy client had to reconnect (%d dials)", mc.NetDials())
	}
	mc.State(fmt.Sprint(len(l), malformed))
}

func head(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

func c14errors(t *mc.T) {
	c11server(t, rsink{fail: func(id appdash.SpanID) error {
		if mc.Choose(2, "the collector fails") == 1 {
			mc.Rec("failed")
			return errors.New("the collector fails")
		}
		return nil
	}}, false, false)
	left := [2]int{3, 2}
	var conn [2]vnet.Conn
	for i := range conn {
		var err error
		conn[i], err = vnet.Dial("tcp", c11addr)
		must(t, err, "Dial")
	}
	dead := [2]bool{}
	var want []*recv
	for left[0]+left[1] > 0 {
		c := 0
		if left[0] == 0 {
			c = 1
		} else if left[1] > 0 {
			c = t.Choose(2, "client")
		}
		id := hx.ID(uint64(c+1), uint64(left[c]), 0)
		left[c]--
		before := len(received())
		fails := c14failed()
		p := cat([]byte{0x0b}, fix64(0x11, uint64(id.Trace)), fix64(0x19, uint64(id.Span)), []byte{0x0c})
		conn[c].Write(frame(p))
		mc.AfterIdle()
		if dead[c] {
			if len(received()) != before {
				t.Fail("a packet was collected from a connection whose collection had failed")
			}
			continue
		}
		want = append(want, recvOf(id, nil))
		c14want(t, want)
		if c14failed() > fails {
			dead[c] = true
		}
		for i := range conn {
			if g := mc.NetClosed(i, 1); g != dead[i] {
				t.Fail("connection %d: a collection has failed: %v, closed: %v", i, dead[i], g)
			}
		}
	}
	rc := c11client(false)
	id := hx.ID(9, 9, 0)
	must(t, rc.Collect(id), "new client: Collect")
	mc.AfterIdle()
	want = append(want, recvOf(id, nil))
	c14want(t, want)
}

func c14failed() (n int) {
	for _, r := range mc.Records() {
		if s, ok := r.(string); ok && s == "failed" {
			n++
		}
	}
	return
}

// flaky is a listener whose Accept fails now and then.
type flaky struct {
	vnet.Listener
	left *int
}

func (f flaky) Accept() (net.Conn, error) {
	if *f.left > 0 && mc.Choose(2, "Accept fails") == 1 {
		*f.left--
		return nil, errors.New("accept: too many open files")
	}
	return f.Listener.Accept()
}

func c14accept(t *mc.T) {
	l, err := vnet.Listen("tcp", c11addr)
	must(t, err, "Listen")
	left := t.Choose(4, "failures")
	cs := appdash.NewServer(flaky{l, &left}, rsink{})
	t.Go("server", cs.Start)
	var want []*recv
	for c := 0; c < 3; c++ {
		rc := c11client(false)
		for i := 0; i < 2; i++ {
			id := hx.ID(uint64(c+1), uint64(i+1), 0)
			must(t, rc.Collect(id), "Collect")
			mc.AfterIdle()
			want = append(want, recvOf(id, nil))
			c14want(t, want)
		}
	}
}

func c14sched(t *mc.T, stream []byte, verbose bool) {
	c11server(t, rsink{}, false, verbose)
	good := c11client(false)
	l, _ := refDecode(stream)
	id := hx.ID(100, 1, 0)
	l = append(l, recvOf(id, nil))
	a := t.Go("bad client", func() {
		c, err := vnet.Dial("tcp", c11addr)
		must(t, err, "Dial")
		c.Write(stream)
		c.Close()
	})
	b := t.Go("good client", func() {
		must(t, good.Collect(id), "healthy client: Collect")
	})
	t.Join(a, b)
	mc.AfterIdle()
	mc.Calm()
	got := map[string]int{}
	for _, r := range received() {
		got[r.String()]++
	}
	for _, w := range l {
		if got[w.String()] != 1 {
			t.Fail("%s was collected %d times\n%s", w, got[w.String()], recvList(received()))
		}
	}
	if len(received()) != len(l) {
		t.Fail("the server has collected\n%s", recvList(received()))
	}
	id = hx.ID(100, 2, 0)
	must(t, good.Collect(id), "healthy client: Collect")
	must(t, c11client(false).Collect(id), "new client: Collect")
	mc.AfterIdle()
	if n := len(received()); n != len(l)+2 {
		t.Fail("the healthy clients are not served any more: %d collected, %d sent", n, len(l)+2)
	}
	mc.State(recvList(received()))
}

// c14many lets many clients come and go.
func c14many(t *mc.T, n, first int) {
	c11server(t, rsink{fail: func(id appdash.SpanID) error {
		if id.Trace == 66 {
			return errors.New("the collector fails")
		}
		return nil
	}}, false, false)
	good := c11client(false)
	want := 0
	send := func(rc *appdash.RemoteCollector) {
		want++
		must(t, rc.Collect(hx.ID(100, uint64(want), 1)), "healthy client: Collect")
		mc.AfterIdle()
		got := 0
		for _, r := range received() {
			if r.id.Trace == 100 {
				got++
			}
		}
		if got != want {
			t.Fail("%d packets of healthy clients were sent, %d collected", want, got)
		}
	}
	send(good)
	live := t.Live()
	kinds := [2]int{first, t.Choose(7, "second kind")}
	stay := 0
	ok := frame(c14packet(true, 1))
	bad := frame(cat([]byte{0x0b}, fix64(0x11, 66), fix64(0x19, 1), []byte{0x0c}))
	for i := 0; i < n; i++ {
		c, err := vnet.Dial("tcp", c11addr)
		must(t, err, "Dial")
		switch kinds[i%2] {
		case 1:
			c.Write(ok)
		case 2:
			c.Write(ok[:len(ok)/2])
		case 3:
			c.Write([]byte{2, 0x0b, 0x0c})
		case 4:
			c.Write(bytes.Repeat([]byte{0xff}, 12))
		case 5:
			c.Write(bad)
		case 6:
			stay++
			c.Write(ok)
			mc.AfterIdle()
			continue
		}
		c.Close()
		mc.AfterIdle()
	}
	mc.AfterIdle()
	if g := t.Live(); g != live+stay {
		t.Fail("%d goroutines of the server serve %d clients, %d did before %d came and went (kinds %v)", g, stay+1, live, n, kinds)
	}
	send(good)
	send(c11client(false))
	send(good)
	if mc.NetDials() != n+2 {
		t.Fail("the healthy client had to reconnect (%d dials)", mc.NetDials())
	}
	mc.State(fmt.Sprint(kinds))
}
