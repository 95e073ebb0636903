package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	nhttp "net/http"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// refID parses an ID as the property says: hex digits, at most 64 bits.
func refID(s string) (v uint64, ok bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d byte
		switch {
		case '0' <= c && c <= '9':
			d = c - '0'
		case 'a' <= c && c <= 'f':
			d = c - 'a' + 10
		case 'A' <= c && c <= 'F':
			d = c - 'A' + 10
		default:
			return 0, false
		}
		if v>>60 != 0 {
			return 0, false
		}
		v = v<<4 | uint64(d)
	}
	return v, true
}

// refSpan parses a span ID.
func refSpan(s string) (id appdash.SpanID, ok bool) {
	parts := strings.Split(s, "/")
	if len(parts) != 2 && len(parts) != 3 {
		return id, false
	}
	var v [3]uint64
	for i, p := range parts {
		if v[i], ok = refID(p); !ok {
			return id, false
		}
	}
	return hx.ID(v[0], v[1], v[2]), true
}

// c18text compares the parsers with the reference.
func c18text(t *mc.T, s string) {
	v, ok := refID(s)
	id, err := appdash.ParseID(s)
	if (err == nil) != ok || uint64(id) != v && ok || err != nil && id != 0 {
		t.Fail("ParseID(%q) = %v, %v; must be %x, %v", s, id, err, v, ok)
	}
	w, ok := refSpan(s)
	sp, err := appdash.ParseSpanID(s)
	if (err == nil) != ok || (sp != nil) != ok || ok && *sp != w {
		t.Fail("ParseSpanID(%q) = %v, %v; must be %v, %v", s, sp, err, w, ok)
	}
	if s != "" {
		h := nhttp.Header{"Span-Id": {s}}
		sp, err = httptrace.GetSpanID(h)
		if (err == nil) != ok || (sp != nil) != ok || ok && *sp != w {
			t.Fail("GetSpanID of a request with Span-ID %q = %v, %v; must be %v, %v", s, sp, err, w, ok)
		}
		sp, err = httptrace.GetSpanID(nhttp.Header{"Parent-Span-Id": {s}})
		if (err == nil) != ok || (sp != nil) != ok || ok && (sp.Trace != w.Trace || sp.Parent != w.Span || sp.Span == w.Span) {
			t.Fail("GetSpanID of a request with Parent-Span-ID %q = %v, %v; must be a child of %v, %v", s, sp, err, w, ok)
		}
	}
	if ok {
		c18value(t, w)
	}
}

// c18value makes the round trips of a span ID.
func c18value(t *mc.T, id appdash.SpanID) {
	want := fmt.Sprintf("%016x/%016x", uint64(id.Trace), uint64(id.Span))
	if id.Parent != 0 {
		want += fmt.Sprintf("/%016x", uint64(id.Parent))
	}
	s := id.String()
	if s != want {
		t.Fail("the text form of %x is %q instead of %q", [3]uint64{uint64(id.Trace), uint64(id.Span), uint64(id.Parent)}, s, want)
	}
	if id.IsRoot() != (id.Parent == 0) {
		t.Fail("IsRoot of %s is %v", s, id.IsRoot())
	}
	p, err := appdash.ParseSpanID(s)
	if err != nil || *p != id {
		t.Fail("ParseSpanID(%q) = %v, %v", s, p, err)
	}
	h := nhttp.Header{"Span-Id": {"old", "older"}, "Other": {"x"}}
	httptrace.SetSpanIDHeader(h, id)
	if len(h) != 2 || len(h["Span-Id"]) != 1 || h["Span-Id"][0] != want {
		t.Fail("the header of %s is %v", s, h)
	}
	p, err = httptrace.GetSpanID(h)
	if err != nil || *p != id {
		t.Fail("GetSpanID(%v) = %v, %v", h, p, err)
	}
	b, err := json.Marshal(id)
	must(t, err, "json.Marshal of a span ID")
	var back appdash.SpanID
	if err := json.Unmarshal(b, &back); err != nil || back != id {
		t.Fail("span ID %s as JSON is %s and comes back as %s, %v", s, b, back, err)
	}
	for _, x := range []appdash.ID{id.Trace, id.Span, id.Parent} {
		if g, w := x.String(), fmt.Sprintf("%016x", uint64(x)); g != w {
			t.Fail("the text form of %x is %q", uint64(x), g)
		}
		if y, err := appdash.ParseID(x.String()); err != nil || y != x {
			t.Fail("ParseID(%q) = %v, %v", x.String(), y, err)
		}
		b, err := json.Marshal(x)
		if err != nil || string(b) != fmt.Sprintf("%q", x.String()) {
			t.Fail("ID %x as JSON is %s, %v", uint64(x), b, err)
		}
		y := ^x
		if err := json.Unmarshal(b, &y); err != nil || y != x {
			t.Fail("JSON %s is ID %v, %v", b, y, err)
		}
		b, err = json.Marshal(map[string]*appdash.ID{"k": &x})
		must(t, err, "json.Marshal of a map of IDs")
		m := map[string]*appdash.ID{}
		if err := json.Unmarshal(b, &m); err != nil || m["k"] == nil || *m["k"] != x {
			t.Fail("JSON %s is %v, %v", b, m, err)
		}
		y = ^x
		if err := json.Unmarshal([]byte(fmt.Sprint(uint64(x))), &y); err != nil || y != x {
			t.Fail("JSON %d is ID %v, %v", uint64(x), y, err)
		}
	}
}

var max64 = new(big.Int).SetUint64(^uint64(0))

// c18json compares JSON decoding with the reference; s must not be null.
func c18json(t *mc.T, s string) {
	var v uint64
	ok := false
	var str string
	if json.Unmarshal([]byte(s), &str) == nil {
		v, ok = refID(str)
	} else if isInt(s) {
		n, _ := new(big.Int).SetString(s, 10)
		if ok = n.Sign() >= 0 && n.Cmp(max64) <= 0; ok {
			v = n.Uint64()
		}
	}
	id := appdash.ID(0x7777)
	err := json.Unmarshal([]byte(s), &id)
	if (err == nil) != ok || ok && uint64(id) != v || !ok && id != 0x7777 {
		t.Fail("JSON %s is ID %v, %v; must be %x, %v", s, id, err, v, ok)
	}
	id = 0x7777
	err = id.UnmarshalJSON([]byte(s))
	if (err == nil) != ok || ok && uint64(id) != v || !ok && id != 0x7777 {
		t.Fail("UnmarshalJSON(%s) is ID %v, %v; must be %x, %v", s, id, err, v, ok)
	}
}

// isInt tells whether s is an integer in JSON.
func isInt(s string) bool {
	s = strings.TrimPrefix(s, "-")
	if s == "" || s[0] == '0' && len(s) > 1 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

var c18u64 = []uint64{0, 1, 9, 0xa, 0xf, 0x10, 0xff, 0x100, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 0x0123456789abcdef, 1<<60 - 1, 1 << 60, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}

// C18: IDs and text.
func init() {
	kit.Prop("C18", func(tier string) (us []*kit.Unit) {
		seq := mc.Options{NoPreempt: true}
		thorough := tier == "thorough"
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Opt: seq, Body: body})
		}
		add("values", fmt.Sprintf("all span IDs with trace, span and parent from %x, and every power of two and its neighbours in each field: text, JSON and header forms", c18u64), func(t *mc.T) {
			n := len(c18u64)
			if t.Choose(2, "powers") == 0 {
				c18value(t, hx.ID(c18u64[t.Choose(n, "trace")], c18u64[t.Choose(n, "span")], c18u64[t.Choose(n, "parent")]))
				return
			}
			v := [3]uint64{3, 5, 7}
			v[t.Choose(3, "field")] = uint64(1)<<t.Choose(64, "bit") + uint64(t.Choose(3, "neighbour")) - 1
			c18value(t, hx.ID(v[0], v[1], v[2]))
		})
		alpha := "01afAFg/+-_x \x00"
		max := 5
		if thorough {
			max = 6
		}
		for f := range alpha {
			f := f
			add(fmt.Sprintf("strings/%d", f), fmt.Sprintf("all strings of up to %d characters over %q (first fixed) against a reference parser: ParseID, ParseSpanID, GetSpanID", max, alpha), func(t *mc.T) {
				b := []byte{alpha[f]}
				for len(b) < max {
					k := t.Choose(len(alpha)+1, "character")
					if k == 0 {
						break
					}
					b = append(b, alpha[k-1])
				}
				if f == 0 && len(b) == 1 {
					c18text(t, "")
				}
				c18text(t, string(b))
			})
		}
		z := func(n int) string { return strings.Repeat("0", n) }
		fields := []string{"", "0", "1", z(15) + "1", z(16), z(16) + "1", z(17), z(40) + "f", strings.Repeat("f", 15), strings.Repeat("f", 16), strings.Repeat("F", 16),
			"0" + strings.Repeat("f", 16), "1" + z(16), strings.Repeat("f", 17), "8" + z(15), "0x1", "1_0", "+1", "-1", " 1", "1 ", "1\n", "g", "1g", "０", "1.0", "1e3"}
		add("fields", fmt.Sprintf("1 to 4 fields from %d forms around the 16-digit limit and near misses, separated by /, // or another character", len(fields)), func(t *mc.T) {
			sep := []string{"/", "//", "-", "\\", ",", ""}[t.Choose(6, "separator")]
			n := 1 + t.Choose(4, "fields")
			var l []string
			for i := 0; i < n; i++ {
				fs := fields
				if n == 4 || sep != "/" {
					fs = fields[:8]
				}
				l = append(l, fs[t.Choose(len(fs), "field")])
			}
			c18text(t, strings.Join(l, sep))
		})
		ints := []string{"0", "1", "9", "10", "255", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808",
			"18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "-1", "-0", "-9223372036854775808", "0.5", "1.5", "9007199254740993.0",
			"true", "false", "[]", "{}", "[1]", `{"a":1}`, `""`, `"0"`, `"g"`, `"10"`, `"\u0031\u0030"`, `"ffffffffffffffff"`, `"FFFFFFFFFFFFFFFF"`, `"10000000000000000"`, `"1/2"`, `" 1"`, `"-1"`, `"0x1"`, `"\u0000"`, `"18446744073709551615"`}
		add("json", fmt.Sprintf("%d JSON values: integers around every limit, other types, strings; and all strings of up to 3 characters over %q as JSON strings", len(ints), alpha), func(t *mc.T) {
			if t.Choose(2, "strings") == 0 {
				s := ints[t.Choose(len(ints), "value")]
				if s == "-0" || strings.Contains(s, ".0") {
					return // not decided by the property
				}
				c18json(t, s)
				return
			}
			var b []byte
			for len(b) < 3 {
				k := t.Choose(len(alpha)+1, "character")
				if k == 0 {
					break
				}
				b = append(b, alpha[k-1])
			}
			q, _ := json.Marshal(string(b))
			c18json(t, string(q))
		})
		return
	})
}
