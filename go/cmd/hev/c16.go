package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// Event types of all shapes.
type ev1[A any] struct{ A A }

func (ev1[A]) Schema() string { return "ev1" }

type ev2[A, B any] struct {
	A A
	B B
}

func (ev2[A, B]) Schema() string { return "ev2" }

// names one of which begins with the other, declared in another order than their names, and one with a tag
type ev3[A, B, C any] struct {
	Beta  A
	Alpha B `trace:"Al.pha"`
	AlphB C
}

func (ev3[A, B, C]) Schema() string { return "ev3" }

type Inner struct {
	X string
	Y int
}

type Inner2 struct {
	M map[string]string
	S []int
	Z Inner
}

// Named types: of the basic kinds, and of collections.
type (
	Method string
	Code   int
	Small  uint8
	Flag   bool
	Ratio  float32
	Header map[Method]Code
	Names  []Method
	Pair   [2]Code
)

var c16single, c16pairs, c16triples []reflect.Type

func r1[A any]() {
	var e any = ev1[A]{}
	c16single = append(c16single, reflect.TypeOf(e))
}

func r2[A, B any]() {
	var e any = ev2[A, B]{}
	c16pairs = append(c16pairs, reflect.TypeOf(e))
}

func r2all[A any]() {
	r2[A, string]()
	r2[A, bool]()
	r2[A, int64]()
	r2[A, uint8]()
	r2[A, float64]()
	r2[A, time.Time]()
	r2[A, time.Duration]()
	r2[A, Inner]()
	r2[A, Inner2]()
	r2[A, map[string]string]()
	r2[A, map[string]int]()
	r2[A, []string]()
	r2[A, []int]()
	r2[A, []time.Time]()
	r2[A, [2]string]()
	r2[A, *string]()
	r2[A, *int]()
	r2[A, Method]()
	r2[A, Header]()
	r2[A, *Inner]()
	r2[A, *time.Time]()
}

func r3[A, B, C any]() {
	var e any = ev3[A, B, C]{}
	c16triples = append(c16triples, reflect.TypeOf(e))
}

func r3two[A, B any]() {
	r3[A, B, string]()
	r3[A, B, int]()
	r3[A, B, time.Time]()
	r3[A, B, Inner]()
	r3[A, B, map[string]string]()
	r3[A, B, []string]()
	r3[A, B, [2]string]()
	r3[A, B, *string]()
}

func r3all[A any]() {
	r3two[A, string]()
	r3two[A, int]()
	r3two[A, time.Time]()
	r3two[A, Inner]()
	r3two[A, map[string]string]()
	r3two[A, []string]()
	r3two[A, [2]string]()
	r3two[A, *string]()
}

func c16types() {
	if c16single != nil {
		return
	}
	r1[bool]()
	r1[int]()
	r1[int8]()
	r1[int16]()
	r1[int32]()
	r1[int64]()
	r1[uint]()
	r1[uint8]()
	r1[uint16]()
	r1[uint32]()
	r1[uint64]()
	r1[float32]()
	r1[float64]()
	r1[string]()
	r1[time.Time]()
	r1[time.Duration]()
	r1[Inner]()
	r1[Inner2]()
	r1[struct{ A, B Inner2 }]()
	r1[struct{ Inner }]()
	r1[map[string]string]()
	r1[map[string]bool]()
	r1[map[string]int8]()
	r1[map[string]uint64]()
	r1[map[string]float64]()
	r1[map[string]time.Time]()
	r1[map[string]time.Duration]()
	r1[[]string]()
	r1[[]bool]()
	r1[[]int32]()
	r1[[]uint8]()
	r1[[]uint64]()
	r1[[]float32]()
	r1[[]float64]()
	r1[[]time.Time]()
	r1[[]time.Duration]()
	r1[[1]string]()
	r1[[12]int16]()
	r1[[2]time.Time]()
	r1[[2]time.Duration]()
	r1[*string]()
	r1[*int8]()
	r1[*uint64]()
	r1[*bool]()
	r1[*float64]()

	r1[Method]()
	r1[Code]()
	r1[Small]()
	r1[Flag]()
	r1[Ratio]()
	r1[Header]()
	r1[Names]()
	r1[Pair]()
	r1[*Method]()
	r1[*Code]()
	r1[map[string]Method]()
	r1[map[Method]string]()
	r1[map[int]string]()
	r1[map[int8]Small]()
	r1[map[uint64]time.Time]()
	r1[map[bool]Flag]()
	r1[*time.Time]()
	r1[*time.Duration]()
	r1[*Inner]()
	r1[*Inner2]()
	r1[**int]()
	r1[*[2]string]()
	r1[struct {
		before int
		A      string
		among  *Inner
		B      int
		after  map[string]string
	}]()
	r1[struct {
		mu sync.Mutex
		A  Inner
	}]()
	r1[struct {
		P *Inner
		Q *struct{ R *Code }
	}]()

	r2all[string]()
	r2all[bool]()
	r2all[int64]()
	r2all[uint8]()
	r2all[float64]()
	r2all[time.Time]()
	r2all[time.Duration]()
	r2all[Inner]()
	r2all[Inner2]()
	r2all[map[string]string]()
	r2all[map[string]int]()
	r2all[[]string]()
	r2all[[]int]()
	r2all[[]time.Time]()
	r2all[[2]string]()
	r2all[*string]()
	r2all[*int]()
	r2all[Method]()
	r2all[Header]()
	r2all[*Inner]()
	r2all[*time.Time]()

	r3all[string]()
	r3all[int]()
	r3all[time.Time]()
	r3all[Inner]()
	r3all[map[string]string]()
	r3all[[]string]()
	r3all[[2]string]()
	r3all[*string]()
}

var (
	tTime = reflect.TypeOf(time.Time{})
	tDur  = reflect.TypeOf(time.Duration(0))
	zone1 = time.FixedZone("", -(9*3600 + 30*60))
)

// c16values lists values of a type; few: 3 of them at most.
func c16values(t reflect.Type, few bool) (l []reflect.Value) {
	add := func(vs ...any) {
		for _, v := range vs {
			l = append(l, reflect.ValueOf(v).Convert(t))
		}
	}
	switch {
	case t == tTime:
		add(time.Time{}, time.Date(2020, 2, 29, 23, 59, 59, 123456789, time.UTC), time.Date(2014, 12, 31, 23, 0, 0, 1, zone1))
		if !few {
			add(time.Unix(0, 0), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1969, 1, 1, 0, 0, 0, 500, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC))
		}
		return
	case t == tDur:
		ten := 10 * 24 * time.Hour
		add(time.Duration(0), time.Duration(1234567891), -ten)
		if !few {
			for _, d := range []time.Duration{1, 3, 999, time.Microsecond + 1, time.Millisecond - 1, time.Millisecond + 1, time.Second + 7, time.Hour + 333, ten - 1, ten - 123457, ten} {
				add(d, -d)
			}
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		add(false, true)
	case reflect.String:
		add("", "text", "a.b\x00\xff")
		if !few {
			add(" ", "\n", "_schema:log", "日本", "0", "nil", strings.Repeat("x", 300))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		lim := int64(-1) << (t.Bits() - 1)
		add(int64(0), int64(1), lim)
		if !few {
			add(int64(-1), lim+1, -(lim + 1), int64(100))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		add(uint64(0), uint64(7), uint64(math.MaxUint64)>>(64-t.Bits()))
		if !few {
			add(uint64(1), uint64(1)<<(t.Bits()-1), uint64(1)<<(t.Bits()-1)-1)
		}
	case reflect.Float32:
		add(0.0, 1.0/3, math.Copysign(0, -1))
		add(-2.5, 16777216.0, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1e-10)
	case reflect.Float64:
		add(0.0, 1.0/3, math.Copysign(0, -1))
		if !few {
			add(-2.5, 9007199254740993.0, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1, 1e-10, 1e300)
		}
	case reflect.Ptr:
		l = append(l, reflect.Zero(t))
		for _, v := range c16values(t.Elem(), true) {
			if v.Kind() == reflect.Ptr && v.IsNil() || v.Kind() == reflect.Struct && t.Elem() != tTime && c16empty(v) {
				continue // (nothing there: the same as no pointer)
			}
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			l = append(l, p)
		}
		if few && len(l) > 3 {
			l = l[:3]
		}
	case reflect.Struct:
		// every field at its values, one after the other, and all together
		var fs [][]reflect.Value
		n := 0
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				fs = append(fs, nil) // not exported
				continue
			}
			vs := c16values(t.Field(i).Type, few || t.NumField() > 2)
			fs = append(fs, vs)
			if len(vs) > n {
				n = len(vs)
			}
		}
		for k := 0; k < n; k++ {
			v := reflect.New(t).Elem()
			for i := range fs {
				if fs[i] != nil {
					v.Field(i).Set(fs[i][k%len(fs[i])])
				}
			}
			l = append(l, v)
		}
		if few {
			break
		}
		for i := range fs {
			for _, x := range fs[i] {
				for k := 0; k < 2; k++ {
					v := reflect.New(t).Elem()
					for j := range fs {
						if fs[j] != nil {
							v.Field(j).Set(fs[j][k])
						}
					}
					v.Field(i).Set(x)
					l = append(l, v)
				}
			}
		}
	case reflect.Map:
		vs := c16values(t.Elem(), false)
		sets := [][]string{{}, {"k", "l"}, {""}}
		if !few {
			l = append(l, reflect.Zero(t))
			sets = append(sets, []string{"a.b", ".", "..", "a"}, []string{"\x00", "\xff", "日本"}, []string{"A", "B", "AA", "Z", "zz", "_schema:x", "0", "10", "2"})
		}
		for i, keys := range sets {
			m := reflect.MakeMap(t)
			others := c16keys(t.Key())
			for j, k := range keys {
				key := reflect.ValueOf(k)
				if t.Key().Kind() != reflect.String {
					key = others[(i+j)%len(others)]
				}
				m.SetMapIndex(key.Convert(t.Key()), vs[(i+j)%len(vs)])
			}
			l = append(l, m)
		}
	case reflect.Slice:
		vs := c16values(t.Elem(), false)
		ns := []int{0, 1, 2}
		if !few {
			l = append(l, reflect.Zero(t))
			ns = append(ns, 3, 10, 11, 12, 101)
		}
		for i, n := range ns {
			s := reflect.MakeSlice(t, n, n)
			for j := 0; j < n; j++ {
				s.Index(j).Set(vs[(i+j)%len(vs)])
			}
			l = append(l, s)
		}
	case reflect.Array:
		vs := c16values(t.Elem(), false)
		for i := 0; i < len(vs) && !(few && i == 3); i++ {
			a := reflect.New(t).Elem()
			for j := 0; j < t.Len(); j++ {
				a.Index(j).Set(vs[(i+j)%len(vs)])
			}
			l = append(l, a)
		}
	default:
		panic("no values of " + t.String())
	}
	return
}

// c16keys lists keys of maps that are not strings.
func c16keys(t reflect.Type) []reflect.Value {
	if t.Kind() == reflect.String {
		return nil
	}
	return c16values(t, false)
}

// c16empty tells whether nothing of a struct is written.
func c16empty(v reflect.Value) bool {
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath != "" {
			continue
		}
		switch f := v.Field(i); f.Kind() {
		case reflect.Ptr:
			if !f.IsNil() {
				return false
			}
		case reflect.Map, reflect.Slice:
			if f.Len() > 0 {
				return false
			}
		case reflect.Struct:
			if f.Type() == tTime || !c16empty(f) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// c16string writes a value: an absent and an empty collection are the same, times are instants.
func c16string(v reflect.Value) string {
	if v.Type() == tTime {
		return v.Interface().(time.Time).UTC().Format("2006-01-02T15:04:05.999999999")
	}
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f != f {
			return "NaN"
		}
		return fmt.Sprintf("%x", math.Float64bits(f))
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + c16string(v.Elem())
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				l = append(l, v.Type().Field(i).Name+":"+c16string(v.Field(i)))
			}
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, c16string(k)+":"+c16string(v.MapIndex(k)))
		}
		sort.Strings(l)
		return "map[" + strings.Join(l, " ") + "]"
	case reflect.Slice, reflect.Array:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, c16string(v.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(v.Interface())
}

// c16round marshals and unmarshals an event.
func c16round(t *mc.T, v reflect.Value) {
	e := v.Interface().(appdash.Event)
	before := c16string(v)
	as, err := appdash.MarshalEvent(e)
	must(t, err, "MarshalEvent")
	if c16string(v) != before {
		t.Fail("marshalling has changed the event %s", before)
	}
	p := reflect.New(v.Type())
	if err := appdash.UnmarshalEvent(as, p.Interface().(appdash.Event)); err != nil {
		t.Fail("event %s, annotations\n%s\nUnmarshalEvent: %v", before, as, err)
	}
	if g := c16string(p.Elem()); g != before {
		t.Fail("event    %s\ncomes as %s\nfrom the annotations\n%s", before, g, as)
	}
}

// C16: events round trip.
func init() {
	kit.Prop("C16", func(tier string) (us []*kit.Unit) {
		c16types()
		seq := mc.Options{NoPreempt: true}
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Opt: seq, Body: body})
		}
		add("single fields", fmt.Sprintf("%d event types of one field of every supported kind (also nested, in maps, slices and arrays, behind pointers), at every boundary value", len(c16single)),
			func(t *mc.T) {
				ty := c16single[t.Choose(len(c16single), "type")]
				vs := c16values(ty.Field(0).Type, false)
				v := reflect.New(ty).Elem()
				v.Field(0).Set(vs[t.Choose(len(vs), "value")])
				c16round(t, v)
			})
		for part := 0; part < 21; part++ {
			part := part
			add(fmt.Sprintf("pairs of fields/%d", part), "event types with every ordered pair of 21 field kinds, at every pair of boundary values (kind of the first field = number of the unit)", func(t *mc.T) {
				ty := c16pairs[part*21+t.Choose(21, "type")]
				v := reflect.New(ty).Elem()
				for i := 0; i < 2; i++ {
					vs := c16values(ty.Field(i).Type, false)
					v.Field(i).Set(vs[t.Choose(len(vs), "value")])
				}
				c16round(t, v)
			})
		}
		for part := 0; part < 8; part++ {
			part := part
			add(fmt.Sprintf("triples of fields/%d", part), "event types with every ordered triple of 8 field kinds and names that are prefixes of one another, at every triple of up to 3 values (kind of the first field = number of the unit)", func(t *mc.T) {
				ty := c16triples[part*64+t.Choose(64, "type")]
				v := reflect.New(ty).Elem()
				for i := 0; i < 3; i++ {
					vs := c16values(ty.Field(i).Type, true)
					v.Field(i).Set(vs[t.Choose(len(vs), "value")])
				}
				c16round(t, v)
			})
		}
		for _, e := range []any{httptrace.ClientEvent{}, httptrace.ServerEvent{}, sqltrace.SQLEvent{}, appdash.Timespan{}, appdash.SpanNameEvent{}} {
			ty := reflect.TypeOf(e)
			add("library/"+ty.Name(), "the event at every value of every field with two settings of the others, nested structs included, and two independent fields", func(t *mc.T) {
				c16library(t, ty)
			})
		}
		add("library/constructors", "the events made by SpanName, Msg, Log, LogWithTimestamp at every string and time", c16ctors)
		add("own marshallers", "events that marshal themselves, with 0-3 annotations, and errors of their methods", c16own)
		for _, race := range []bool{false, true} {
			us = append(us, &kit.Unit{
				Name: "concurrent", Race: race,
				Rule: "all schedules with <= 2 preemptions of two goroutines that marshal and unmarshal two event types, one of them in common, whose fields are not cached yet",
				Opt:  mc.Options{Bound: 2},
				Body: c16conc,
			})
		}
		return
	})
}

// c16leaves lists the indices of the fields that are not structs.
func c16leaves(t reflect.Type, at []int) (l [][]int) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		idx := append(append([]int(nil), at...), i)
		if f.Type.Kind() == reflect.Struct && f.Type != tTime {
			l = append(l, c16leaves(f.Type, idx)...)
		} else {
			l = append(l, idx)
		}
	}
	return
}

func c16library(t *mc.T, ty reflect.Type) {
	leaves := c16leaves(ty, nil)
	v := reflect.New(ty).Elem()
	base := t.Choose(3, "others")
	for _, l := range leaves {
		f := v.FieldByIndex(l)
		vs := c16values(f.Type(), true)
		f.Set(vs[base%len(vs)])
	}
	i := t.Choose(len(leaves), "field")
	f := v.FieldByIndex(leaves[i])
	vs := c16values(f.Type(), false)
	f.Set(vs[t.Choose(len(vs), "value")])
	j := t.Choose(len(leaves), "another field")
	if j < i {
		f = v.FieldByIndex(leaves[j])
		vs = c16values(f.Type(), true)
		f.Set(vs[t.Choose(len(vs), "value")])
	}
	c16round(t, v)
}

func c16ctors(t *mc.T) {
	vs := c16values(reflect.TypeOf(""), false)
	s := vs[t.Choose(len(vs), "text")].String()
	ts := c16values(tTime, false)
	when := ts[t.Choose(len(ts), "time")].Interface().(time.Time)
	var e appdash.Event
	k := t.Choose(4, "event")
	switch k {
	case 0:
		e = appdash.SpanName(s)
	case 1:
		e = appdash.Msg(s)
	case 2:
		e = appdash.Log(s)
		when = mc.Now()
	case 3:
		e = appdash.LogWithTimestamp(s, when)
	}
	c16round(t, reflect.ValueOf(e))
	as, _ := appdash.MarshalEvent(e)
	var evs []appdash.Event
	must(t, appdash.UnmarshalEvents(as, &evs), "UnmarshalEvents")
	if len(evs) != 1 || reflect.TypeOf(evs[0]) != reflect.TypeOf(e) {
		t.Fail("UnmarshalEvents of %#v gives %#v", e, evs)
	}
	if k >= 2 {
		p := reflect.New(reflect.TypeOf(e))
		p.Elem().Set(reflect.ValueOf(evs[0]))
		if g := p.Interface().(appdash.TimestampedEvent).Timestamp(); !g.Equal(when) {
			t.Fail("a log event of %v has the timestamp %v after a round trip", when, g)
		}
	}
}

// own marshals itself; the annotations look like nothing that reflection would make.
type own struct {
	N    int
	fail int
}

func (own) Schema() string { return "own" }
func (o own) MarshalEvent() (as appdash.Annotations, err error) {
	if o.fail == 1 {
		return nil, errors.New("marshal")
	}
	for i := 0; i < o.N; i++ {
		as = append(as, hx.A("own!", fmt.Sprint(i)))
	}
	return as, nil
}
func (o own) UnmarshalEvent(as appdash.Annotations) (appdash.Event, error) {
	if o.fail == 2 {
		return nil, errors.New("unmarshal")
	}
	n := own{}
	for _, a := range as {
		if a.Key == "own!" {
			n.N++
		}
	}
	return n, nil
}

func c16own(t *mc.T) {
	e := own{N: t.Choose(4, "annotations")}
	fail := t.Choose(3, "failure")
	if fail == 1 {
		e.fail = 1
		if as, err := appdash.MarshalEvent(e); err == nil || err.Error() != "marshal" || as != nil {
			t.Fail("MarshalEvent gives %v, %v instead of the error of the event's own method", as, err)
		}
		return
	}
	as, err := appdash.MarshalEvent(e)
	must(t, err, "MarshalEvent")
	if len(as) != e.N+1 {
		t.Fail("annotations %v", as)
	}
	g := own{N: 77}
	if fail == 2 {
		g.fail = 2
		if err := appdash.UnmarshalEvent(as, &g); err == nil || err.Error() != "unmarshal" {
			t.Fail("UnmarshalEvent gives %v instead of the error of the event's own method", err)
		}
		return
	}
	must(t, appdash.UnmarshalEvent(as, &g), "UnmarshalEvent")
	if g.N != e.N {
		t.Fail("event %v comes as %v", e, g)
	}
}

func c16conc(t *mc.T) {
	vs := []reflect.Value{reflect.New(reflect.TypeOf(ev2[Inner, map[string]string]{})).Elem(), reflect.New(reflect.TypeOf(ev2[[]int, Inner]{})).Elem()}
	a := t.Go("a", func() { c16round(t, vs[0]); c16round(t, vs[1]) })
	b := t.Go("b", func() { c16round(t, vs[1]) })
	t.Join(a, b)
}
