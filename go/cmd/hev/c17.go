package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// Registered event types of the harness.
type mixEvent struct {
	Arr   [2]int             `trace:"x.Arr"`
	Dur   time.Duration      `trace:"x.Dur"`
	Map   map[string]string  `trace:"x.Map"`
	Ptr   *int               `trace:"x.Ptr"`
	Slice []string           `trace:"x.Slice"`
	Sub   Inner2             `trace:"x.Sub"`
	Last  string             `trace:"x.Zz"`
	Nums  map[string]float64 `trace:"a"`
}

func (mixEvent) Schema() string { return "mix" }

type lowEvent struct {
	S []int  `trace:"zlast"`
	T string `trace:"!first"`
}

func (lowEvent) Schema() string { return "low" }

type ownEvent struct{ V string }

func (ownEvent) Schema() string { return "ownreg" }
func (o ownEvent) MarshalEvent() (appdash.Annotations, error) {
	return appdash.Annotations{hx.A("ownreg/value", o.V)}, nil
}
func (ownEvent) UnmarshalEvent(as appdash.Annotations) (appdash.Event, error) {
	for _, a := range as {
		if a.Key == "ownreg/value" {
			return ownEvent{string(a.Value)}, nil
		}
	}
	return nil, errors.New("no value")
}

// unknownEvent is not registered.
type unknownEvent struct{ Secret string }

func (unknownEvent) Schema() string { return "unknown" }

// nearEvent has any schema.
type nearEvent struct{ Near string }

var c17near string

func (nearEvent) Schema() string { return c17near }

// emptyEvent has no fields.
type emptyEvent struct{}

func (emptyEvent) Schema() string { return "empty" }

func init() {
	mc.RegisterReset(func() { // (the packages start anew in every execution)
		appdash.RegisterEvent(mixEvent{})
		appdash.RegisterEvent(lowEvent{})
		appdash.RegisterEvent(ownEvent{})
		appdash.RegisterEvent(emptyEvent{})
	})
}

// c17events lists events whose keys are all different.
func c17events() []appdash.Event {
	t0 := time.Date(2020, 1, 2, 3, 4, 5, 600700800, time.UTC)
	n := 5
	ce := httptrace.ClientEvent{ClientSend: t0, ClientRecv: t0.Add(time.Second)}
	ce.Request = httptrace.RequestInfo{Method: "GET", URI: "/u", Headers: map[string]string{"A": "1", "X-Y": "2", "": "none"}, ContentLength: 3}
	ce.Response = httptrace.ResponseInfo{StatusCode: 200, Headers: map[string]string{"B": "3"}, ContentLength: -1}
	se := httptrace.ServerEvent{ServerRecv: t0, ServerSend: t0.Add(time.Minute), Route: "r", User: "u"}
	se.Request = httptrace.RequestInfo{Method: "POST", Host: "h", RemoteAddr: "1.2.3.4:5"}
	se.Response.StatusCode = 404
	return []appdash.Event{
		appdash.SpanName("name"),
		appdash.Log("message"), // (Msg and Log share a key)
		appdash.Timespan{S: t0, E: t0.Add(5)},
		sqltrace.SQLEvent{SQL: "SELECT", Tag: "t", ClientSend: t0, ClientRecv: t0},
		ce, se,
		mixEvent{Arr: [2]int{1, 2}, Dur: 1500, Map: map[string]string{"k": "v", "": "e"}, Ptr: &n, Slice: []string{"a", "b"}, Last: "l",
			Sub: Inner2{M: map[string]string{"m": "n"}, S: []int{7}, Z: Inner{"x", 9}}, Nums: map[string]float64{"pi": 3.5}},
		mixEvent{Last: "only this"},
		lowEvent{S: []int{3, 4, 5}, T: "t"},
		lowEvent{},
		ownEvent{"own value"},
		emptyEvent{},
	}
}

func c17string(e appdash.Event) string { return e.Schema() + c16string(reflect.ValueOf(e)) }

// c17expect decodes annotations.
func c17expect(t *mc.T, as appdash.Annotations, want []appdash.Event, what string) {
	var w, g []string
	for _, e := range want {
		w = append(w, c17string(e))
	}
	in := as.String()
	var evs []appdash.Event
	if err := appdash.UnmarshalEvents(as, &evs); err != nil {
		t.Fail("%s: UnmarshalEvents: %v\nannotations\n%s", what, err, in)
	}
	for _, e := range evs {
		g = append(g, c17string(e))
	}
	sort.Strings(w)
	sort.Strings(g)
	if a, b := strings.Join(g, "\n"), strings.Join(w, "\n"); a != b {
		t.Fail("%s: the events are\n%s\nand must be\n%s\nannotations\n%s", what, a, b, in)
	}
	for _, e := range want {
		p := reflect.New(reflect.TypeOf(e))
		if err := appdash.UnmarshalEvent(as, p.Interface().(appdash.Event)); err != nil {
			t.Fail("%s: UnmarshalEvent of %s: %v", what, e.Schema(), err)
		}
		if a, b := c17string(p.Elem().Interface().(appdash.Event)), c17string(e); a != b {
			t.Fail("%s: the event is\n%s\nand must be\n%s\nannotations\n%s", what, a, b, in)
		}
	}
	have := map[string]bool{}
	for _, e := range want {
		have[e.Schema()] = true
	}
	for _, e := range c17events() {
		if !have[e.Schema()] {
			p := reflect.New(reflect.TypeOf(e))
			if err := appdash.UnmarshalEvent(as, p.Interface().(appdash.Event)); err == nil {
				t.Fail("%s: UnmarshalEvent finds an event of schema %s, there is none\n%s", what, e.Schema(), in)
			} else if _, ok := err.(*appdash.EventSchemaUnmarshalError); !ok {
				t.Fail("%s: UnmarshalEvent of a missing schema: error %T", what, err)
			}
		}
	}
	// Schemas that resemble those that are there.
	for s := range have {
		for _, n := range []string{strings.ToUpper(s), strings.ToLower(s), strings.Title(s), s + " ", " " + s, s + "x", s[:max(len(s)-1, 0)], "_schema:" + s, "_" + s, s + ":", s + s, ""} {
			if have[n] {
				continue
			}
			c17near = n
			if err := appdash.UnmarshalEvent(as, &nearEvent{}); err == nil {
				t.Fail("%s: UnmarshalEvent finds an event of schema %q, there is none\n%s", what, n, in)
			} else if _, ok := err.(*appdash.EventSchemaUnmarshalError); !ok {
				t.Fail("%s: UnmarshalEvent of a missing schema %q: error %T", what, n, err)
			}
		}
	}
	if as.String() != in {
		t.Fail("%s: decoding has changed the annotations\n%s\ninto\n%s", what, in, as)
	}
}

func c17marshal(t *mc.T, evs []appdash.Event) (as appdash.Annotations) {
	for _, e := range evs {
		a, err := appdash.MarshalEvent(e)
		must(t, err, "MarshalEvent")
		as = append(as, a...)
	}
	return
}

// related tells whether a key belongs to an event: it is one of its field names or begins with one and a dot.
func related(t reflect.Type, prefix, key string) bool {
	for i := 0; i < t.NumField(); i++ {
		n := t.Field(i).Tag.Get("trace")
		if n == "" {
			n = t.Field(i).Name
		}
		n = prefix + n
		if key == n || strings.HasPrefix(key, n+".") {
			return true
		}
	}
	return false
}

// c17foreign lists keys next to every key in sort order that belong to none of the events.
func c17foreign(as appdash.Annotations, evs []appdash.Event) (l []string) {
	seen := map[string]bool{}
	add := func(k string) {
		if seen[k] || strings.HasPrefix(k, appdash.SchemaPrefix) || strings.HasPrefix(k, "ownreg/") {
			return
		}
		seen[k] = true
		for _, a := range as {
			if a.Key == k {
				return
			}
		}
		for _, e := range evs {
			if related(reflect.TypeOf(e), "", k) {
				return
			}
		}
		l = append(l, k)
	}
	add("")
	add(".")
	add("\x00")
	add("\xff\xff")
	add("_")
	add("_schem")
	for _, a := range as {
		k := a.Key
		for _, d := range []string{"\x00", "!", ".", "/", "z", ".x", "~"} {
			add(k + d)
		}
		for i := 1; i <= len(k); i++ {
			add(k[:i])
			add(k[:i-1] + string([]byte{k[i-1] - 1}) + "~")
			add(k[:i-1] + string([]byte{k[i-1] + 1}))
		}
	}
	return
}

// C17: order and strangers do not matter.
func init() {
	kit.Prop("C17", func(tier string) (us []*kit.Unit) {
		seq := mc.Options{NoPreempt: true}
		thorough := tier == "thorough"
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Opt: seq, Body: body})
		}
		n := len(c17events())
		perm := 7
		if thorough {
			perm = 8
		}
		for i := 0; i < n; i++ {
			i := i
			add(fmt.Sprintf("permutations/%d", i), fmt.Sprintf("event %d of %d alone and with every other event, with every unknown one: all permutations of up to %d annotations, all rotations, reversals and swaps of two of more", i, n, perm), func(t *mc.T) {
				c17perm(t, i, perm)
			})
			add(fmt.Sprintf("foreign/%d", i), fmt.Sprintf("event %d with one unrelated annotation with a key next to every key in sort order, at the beginning or the end, with and without a value; and two such annotations", i), func(t *mc.T) {
				c17stranger(t, i)
			})
		}
		add("damaged/types", "every event type of C16 of one field, with one or two annotations whose keys are the field's, or are below it with indexes and names of all sorts (negative, too large, no numbers, nested, empty) and with values of all sorts: decoding neither panics nor changes the annotations, and the other event of the span is found as it is", func(t *mc.T) { c17damagedTypes(t, thorough) })
		for i := 0; i < n; i++ {
			i := i
			add(fmt.Sprintf("damaged/%d", i), fmt.Sprintf("event %d, one of its annotations (or two) with a value that no field can have, or with a key with another index or a longer or shorter path: decoding does not panic and all the other events of the span are found as they are", i), func(t *mc.T) {
				c17damaged(t, i, thorough)
			})
		}
		add("subsets", "all subsets of the events with different schemas, in ascending or descending order, with or without the annotations of an unregistered event", c17subsets)
		add("interleaved", "all pairs of events, their annotations interleaved in all ways that keep both orders (up to 8 annotations of each at 3 cutting points)", c17interleaved)
		return
	})
}

func c17perm(t *mc.T, i, max int) {
	all := c17events()
	evs := []appdash.Event{all[i]}
	if j := t.Choose(len(all)+1, "other event"); j > 0 && j-1 != i && all[j-1].Schema() != all[i].Schema() {
		evs = append(evs, all[j-1])
	} else if j > 0 {
		return
	}
	as := c17marshal(t, evs)
	if t.Choose(2, "unknown event") == 1 {
		as = append(as, c17marshal(t, []appdash.Event{unknownEvent{"s"}})...)
	}
	n := len(as)
	p := append(appdash.Annotations(nil), as...)
	if n <= max {
		for k := 0; k < n-1; k++ {
			j := k + t.Choose(n-k, "next annotation")
			p[k], p[j] = p[j], p[k]
		}
	} else {
		switch t.Choose(3, "order") {
		case 0:
			r := t.Choose(n, "rotation")
			p = append(append(appdash.Annotations(nil), as[r:]...), as[:r]...)
		case 1:
			for k := range p {
				p[k] = as[n-1-k]
			}
		case 2:
			a := t.Choose(n, "swap")
			b := t.Choose(n, "with")
			if a >= b {
				return
			}
			p[a], p[b] = p[b], p[a]
		}
	}
	c17expect(t, p, evs, "reordered")
}

func c17stranger(t *mc.T, i int) {
	e := c17events()[i]
	evs := []appdash.Event{e}
	as := c17marshal(t, evs)
	ks := c17foreign(as, evs)
	// (up to 256 alternatives per choice)
	a := t.Choose((len(ks)+15)/16, "key")*16 + t.Choose(16, "key")
	if a >= len(ks) {
		return
	}
	val := []string{"", "not a value of anything", "12"}[t.Choose(3, "value")]
	f := hx.A(ks[a], val)
	switch t.Choose(3, "where") {
	case 0:
		as = append(appdash.Annotations{f}, as...)
	case 1:
		as = append(as, f)
	case 2:
		if a+1 >= len(ks) {
			return
		}
		as = append(append(appdash.Annotations{f}, as...), hx.A(ks[a+1], val), hx.A(ks[len(ks)-1-a], val))
	}
	c17expect(t, as, evs, fmt.Sprintf("with unrelated %q", ks[a]))
}

func c17subsets(t *mc.T) {
	var evs []appdash.Event
	have := map[string]bool{}
	for _, e := range c17events() {
		if t.Choose(2, "event "+e.Schema()) == 1 {
			if have[e.Schema()] {
				return
			}
			have[e.Schema()] = true
			evs = append(evs, e)
		}
	}
	as := c17marshal(t, evs)
	if t.Choose(2, "unknown event") == 1 {
		as = append(as, c17marshal(t, []appdash.Event{unknownEvent{"s"}})...)
	}
	if t.Choose(2, "order") == 1 {
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
	}
	c17expect(t, as, evs, "subset")
}

func c17interleaved(t *mc.T) {
	all := c17events()
	a := all[t.Choose(len(all), "event")]
	b := all[t.Choose(len(all), "event")]
	if a.Schema() == b.Schema() {
		return
	}
	as, bs := c17marshal(t, []appdash.Event{a}), c17marshal(t, []appdash.Event{b})
	var r appdash.Annotations
	for i := 0; i < 3; i++ {
		n := t.Choose(min(len(as), 8)+1, "from the first")
		r = append(r, as[:n]...)
		as = as[n:]
		n = t.Choose(min(len(bs), 3)+1, "from the second")
		r = append(r, bs[:n]...)
		bs = bs[n:]
		if i == 1 {
			break
		}
	}
	r = append(append(r, bs...), as...)
	c17expect(t, r, []appdash.Event{a, b}, "interleaved")
}

var c17values = []string{"", "x", "-1", "1e400", "99999999999999999999", "-9223372036854775808", "true", "NaN", "2020-01-02T03:04:05Z", "0001-01-01T00:00:00+25:00", "\x00", "1.5"}

var c17suffixes = []string{"", ".", ".0", ".1", ".-1", ".2", ".12", ".1048575", ".1048576", ".2147483648", ".9223372036854775807", ".-9223372036854775808", ".99999999999999999999", ".+1", ".01", ".x", ".X", ".Y", ".M", ".M.k", ".S.-1", ".S.1", ".Z", ".Z.Y", ".0.0", ".0.x", ".P", ".P.X", ".Q.R", "..", ".true"}

// c17try decodes annotations of which some do not fit the event.
func c17try(t *mc.T, as appdash.Annotations, damaged reflect.Type, others []appdash.Event) {
	in := as.String()
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("decoding an event of type %v panics: %v\nannotations\n%s", damaged, r, in)
			}
		}()
		p := reflect.New(damaged)
		_ = appdash.UnmarshalEvent(as, p.Interface().(appdash.Event))
		var evs []appdash.Event
		_ = appdash.UnmarshalEvents(as, &evs)
		schema := reflect.Zero(damaged).Interface().(appdash.Event).Schema()
		var w, g []string
		for _, e := range others {
			w = append(w, c17string(e))
		}
		for _, e := range evs {
			if e.Schema() != schema {
				g = append(g, c17string(e))
			}
		}
		sort.Strings(w)
		sort.Strings(g)
		if a, b := strings.Join(g, "\n"), strings.Join(w, "\n"); a != b {
			t.Fail("beside a damaged event of type %v, the events are\n%s\nand must be\n%s\nannotations\n%s", damaged, a, b, in)
		}
	}()
	if as.String() != in {
		t.Fail("decoding has changed the annotations\n%s\ninto\n%s", in, as)
	}
}

func c17damagedTypes(t *mc.T, thorough bool) {
	c16types()
	ty := c16single[t.Choose(len(c16single), "type")]
	as := appdash.Annotations{{Key: appdash.SchemaPrefix + "ev1"}}
	two := t.Choose(2, "annotations")
	for i := two; i >= 0; i-- {
		ss, vs := c17suffixes, c17values
		if i == 1 {
			vs = vs[:3]
		} else if two == 1 && !thorough {
			ss, vs = ss[:13], vs[:3]
		}
		s := ss[t.Choose(len(ss), "key")]
		as = append(as, hx.A("A"+s, vs[t.Choose(len(vs), "value")]))
	}
	other := lowEvent{S: []int{3, 4}, T: "t"}
	c17try(t, append(as, c17marshal(t, []appdash.Event{other})...), ty, []appdash.Event{other})
}

func c17damaged(t *mc.T, i int, thorough bool) {
	all := c17events()
	e := all[i]
	mine := c17marshal(t, []appdash.Event{e})
	mine = mine[:len(mine)-1] // (the schema stays)
	if len(mine) == 0 || e.Schema() == "ownreg" {
		return // (an error of the event's own method is returned)
	}
	k := t.Choose(len(mine), "annotation")
	for n := t.Choose(2, "how many"); n >= 0; n-- {
		a := &mine[(k+n)%len(mine)]
		if n == 1 && !thorough {
			if t.Choose(2, "damage") == 0 {
				a.Value = []byte(c17values[1])
			} else {
				a.Key += ".-1"
			}
			continue
		}
		switch t.Choose(4, "damage") {
		case 0:
			a.Value = []byte(c17values[t.Choose(len(c17values), "value")])
		case 1:
			a.Key += c17suffixes[t.Choose(len(c17suffixes), "key")]
		case 2:
			if j := strings.LastIndex(a.Key, "."); j >= 0 {
				a.Key = a.Key[:j] + c17suffixes[t.Choose(len(c17suffixes), "key")]
			}
		case 3:
			a.Key = a.Key[:t.Choose(len(a.Key)+1, "length of the key")]
		}
	}
	var others []appdash.Event
	have := map[string]bool{e.Schema(): true}
	for _, o := range all {
		clash := have[o.Schema()]
		for _, a := range mine {
			clash = clash || related(reflect.TypeOf(o), "", a.Key) || strings.HasPrefix(a.Key, "ownreg/")
		}
		if !clash {
			have[o.Schema()] = true
			others = append(others, o)
		}
	}
	as := append(append(mine, hx.A(appdash.SchemaPrefix+e.Schema(), "")), c17marshal(t, others)...)
	c17try(t, as, reflect.TypeOf(e), others)
}
