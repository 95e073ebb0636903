package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// contents are annotations that are awkward to carry around.
var contents = []func(t *mc.T) []appdash.Annotation{
	func(t *mc.T) []appdash.Annotation { return nil },
	func(t *mc.T) []appdash.Annotation { return []appdash.Annotation{hx.A("k", "v")} },
	func(t *mc.T) []appdash.Annotation { return []appdash.Annotation{hx.A("", "")} },
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("k", "1"), hx.A("k", "2"), hx.A("k", "1")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("<script>\"'&</script>", "</script><textarea></textarea>\"'&amp;<!--")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("bytes", "\xff\xfe\x00\x80 \x01\r\n\t")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("k\x00\x01\n\r\t\u2028\u2029é\\\"", "ü\u2028")}
	},
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("Name", "{{.}} %s + %2B &lt;"), hx.A("a+b %41", "c+d %41")}
	},
	func(t *mc.T) []appdash.Annotation {
		return append(event(t, appdash.SpanName("name")), tspan(t, at(0), at(time.Second))...)
	},
	func(t *mc.T) []appdash.Annotation { return event(t, appdash.LogWithTimestamp("a log", at(0))) },
	func(t *mc.T) []appdash.Annotation {
		return []appdash.Annotation{hx.A("_schema:unknown", ""), hx.A("_schema:", "x"), hx.A("_hidden", "y")}
	},
	func(t *mc.T) []appdash.Annotation {
		var as []appdash.Annotation
		for i := 0; i < 40; i++ {
			as = append(as, hx.A(fmt.Sprint("key", i), strings.Repeat("long value ", i)))
		}
		return as
	},
	func(t *mc.T) []appdash.Annotation { return []appdash.Annotation{hx.A("big", noise(20000))} },
}

// noise is text that does not compress well.
func noise(n int) string {
	b := make([]byte, n)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

var (
	reClipJSON = regexp.MustCompile(`id="copy-json" data-clipboard-text="([^"]*)"`)
	reClipLink = regexp.MustCompile(`id="copy-permalink" data-clipboard-text="([^"]*)"`)
	reLink     = regexp.MustCompile(`id="copy-permalink"[^>]* href="([^"]*)"`)
	reArea     = regexp.MustCompile(`(?s)id="copy-json-text".*?<textarea[^>]*>(.*?)</textarea>`)
	reListJSON = regexp.MustCompile(`data-json-trace="([^"]*)"`)
)

const channels = 5

// export takes a trace out of an instance.
func (in *inst) export(tr appdash.ID, channel int) (data string, link bool) {
	u, err := in.app.URLToTrace(tr)
	if err != nil {
		in.t.Fail("URLToTrace: %v", err)
	}
	one := func(page string, re *regexp.Regexp) string {
		l := attrs(page, re)
		if len(l) != 1 {
			in.t.Fail("a trace page has %d matches of %v", len(l), re)
		}
		return l[0]
	}
	switch channel {
	case 0:
		return one(in.page(u.String()), reClipJSON), false
	case 1:
		return one(in.page(u.String()), reArea), false
	case 2:
		return one(in.page(u.String()), reClipLink), true
	case 3:
		return one(in.page(u.String()), reLink), true
	}
	var l []string
	for _, j := range attrs(in.page("/traces"), reListJSON) {
		var x appdash.Trace
		if err := json.Unmarshal([]byte(j), &x); err != nil {
			in.t.Fail("exported trace of the list: %v: %.300s", err, j)
		}
		if x.Span.ID.Trace == tr {
			l = append(l, j)
		}
	}
	if len(l) != 1 {
		in.t.Fail("the list of traces has trace %v %d times", tr, len(l))
	}
	return "[" + l[0] + "]", false
}

// imp brings what was exported into an instance.
func (in *inst) imp(data string, link bool) string {
	if link {
		w := in.get(data)
		if w.Code >= 400 {
			return fmt.Sprintf("status %d: %.300s", w.Code, w.Body)
		}
		if msg := complete(w); msg != "" {
			in.t.Fail("permalink %.200s: %s", data, msg)
		}
		return ""
	}
	w := do(in.app, "POST", "/traces/upload", data)
	if w.Code >= 400 {
		return fmt.Sprintf("status %d: %.300s", w.Code, w.Body)
	}
	return ""
}

// adopt adds a trace of another model to the model unless it is there.
func (in *inst) adopt(m *hx.StoreM, id appdash.ID) {
	if in.m.T[id] == nil {
		in.m.T[id] = m.Clone().T[id]
	}
}

// same compares how two instances show a trace.
func same(t *mc.T, a, b *inst, id appdash.ID) {
	ta, err := a.store.Trace(id)
	if err != nil {
		t.Fail("trace %v: %v", id, err)
	}
	tb, err := b.store.Trace(id)
	if err != nil {
		t.Fail("the imported trace %v: %v", id, err)
	}
	if g, w := hx.Tree(tb), hx.Tree(ta); g != w {
		t.Fail("the imported trace is\n  %.2000s\ninstead of\n  %.2000s", g, w)
	}
}

// C27: export and import.
func init() {
	kit.Prop("C27", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Body: body})
		}
		add("contents", "all pairs of 13 annotation lists for the root and a child, 5 ways of exporting, into instances that are empty, hold other traces, the same trace, or the same with other contents", func(t *mc.T) { c27contents(t) })
		for ext := 0; ext < 3; ext++ {
			ext := ext
			add(fmt.Sprint("shapes/", ext), fmt.Sprintf("all trees of up to %d spans (0: plain identifiers, 1: extreme ones, 2: with a missing parent), all orders of collection, 5 ways of exporting", pick(tier, 4, 5)), func(t *mc.T) { c27shapes(t, pick(tier, 4, 5), ext) })
		}
		add("sizes", fmt.Sprintf("every length up to %d of a value that does not compress, 5 ways of exporting", pick(tier, 180, 1200)), func(t *mc.T) { c27sizes(t, pick(tier, 180, 1200)) })
		add("several", fmt.Sprintf("all lists of up to %d uploaded traces (new, stored, the same twice with other contents) over all prior contents, and a store that fails", pick(tier, 3, 4)), func(t *mc.T) { c27several(t, pick(tier, 3, 4)) })
		add("malformed", "malformed uploads and permalinks of many kinds over two prior contents", c27malformed)
		add("truncated", "every truncation of two exported traces and two permalinks", c27truncated)
		add("corrupted", fmt.Sprintf("every byte of an exported trace and of a permalink replaced by each of %d others", pick(tier, 5, 40)), func(t *mc.T) { c27corrupted(t, pick(tier, 5, 40)) })
		add("faults", "failures of every call of the store during an import, by upload and by permalink", c27faults)
		conc := func(race bool, bound int) {
			us = append(us, &kit.Unit{Name: fmt.Sprintf("concurrent/%d", bound), Race: race, Opt: mc.Options{Bound: bound}, Body: c27conc,
				Rule: fmt.Sprintf("all schedules with <= %d preemptions of two imports of one new trace (by upload or permalink) and of imports of different traces", bound)})
		}
		if tier == "quick" {
			conc(false, 2)
			conc(true, 1)
		} else {
			conc(false, 4)
			conc(true, 2)
		}
		return
	})
}

// target is an instance to import into.
func target(t *mc.T, prior int, src *inst) *inst {
	dst := newInst(t)
	if prior >= 1 {
		dst.collect(hx.ID(1, 1, 0), hx.A("Name", "another trace"))
		dst.collect(hx.ID(1, 2, 1), hx.A("Name", "another span"))
	}
	switch prior {
	case 2: // the same
		for id, tr := range src.m.T {
			if id != 1 {
				for _, s := range tr.Spans {
					dst.collect(s.ID, s.Anns...)
				}
			}
		}
	case 3: // the trace with other contents
		for id := range src.m.T {
			if id != 1 {
				dst.collect(appdash.SpanID{Trace: id, Span: 0x66}, hx.A("Name", "other contents"))
			}
		}
	}
	return dst
}

func (in *inst) traceID() (tr appdash.ID) {
	for id := range in.m.T {
		if id != 1 {
			tr = id
		}
	}
	return
}

func roundtrip(t *mc.T, src *inst, prior, channel int) {
	tr := src.traceID()
	data, link := src.export(tr, channel)
	src.check("after the export")
	dst := target(t, prior, src)
	for i := 0; i < 2; i++ {
		if msg := dst.imp(data, link); msg != "" {
			t.Fail("import %d by channel %d: %s (data %.300s)", i, channel, msg, data)
		}
		dst.adopt(src.m, tr)
		dst.check("after the import")
	}
	if prior != 3 {
		same(t, src, dst, tr)
		if prior != 2 { // and from there back
			data2, _ := dst.export(tr, 1)
			data0, _ := src.export(tr, 1)
			if data0 != data2 {
				t.Fail("the imported trace is exported as %.600s instead of %.600s", data2, data0)
			}
		}
	}
}

func c27contents(t *mc.T) {
	src := newInst(t)
	a, b := t.Choose(len(contents), "contents of the root"), t.Choose(len(contents), "contents of the child")
	src.collect(hx.ID(0xabc, 0x10, 0), contents[a](t)...)
	src.collect(hx.ID(0xabc, 0x11, 0x10), contents[b](t)...)
	src.collect(hx.ID(1, 1, 0), hx.A("Name", "a trace that is not exported"))
	channel := t.Choose(channels, "channel")
	prior := 0
	if a == b || a == 1 {
		prior = t.Choose(4, "prior contents")
	}
	roundtrip(t, src, prior, channel)
	mc.State(fmt.Sprint(a, b))
}

func c27shapes(t *mc.T, max, ext int) {
	src := newInst(t)
	n := t.Choose(max, "spans") + 1
	ss := shapes(n)
	par := ss[t.Choose(len(ss), "shape")]
	num := func(i int) uint64 { return uint64(i + 1) }
	trace := uint64(7)
	if ext == 1 {
		trace = 1<<64 - 1
		num = func(i int) uint64 { return 1<<63 - uint64(i) }
	}
	prior := t.Choose(3, "prior contents")
	if ext > 1 && n == 1 {
		return
	}
	all := n < max || prior == 0
	var left []int
	for i := range par {
		left = append(left, i)
	}
	for len(left) > 0 {
		i := 0
		if all || len(left) == n {
			i = t.Choose(len(left), "next")
		} else if left[0] == 0 {
			i = len(left) - 1
		}
		k := left[i]
		left = append(left[:i:i], left[i+1:]...)
		id := hx.ID(trace, num(k), 0)
		if par[k] >= 0 {
			id.Parent = appdash.ID(num(par[k]))
		}
		if ext == 2 && k == n-1 {
			id.Parent = 0x999 // not collected
		}
		src.collect(id, hx.A("Name", fmt.Sprint("span", k)), hx.A("k", strings.Repeat("v", k)))
	}
	root := false
	for _, s := range src.m.T[src.traceID()].Spans {
		root = root || s.ID.Parent == 0
	}
	if root {
		roundtrip(t, src, prior, t.Choose(channels, "channel"))
	} else { // its page offers no links
		roundtrip(t, src, prior, []int{1, 4}[t.Choose(2, "channel")])
	}
	mc.State(fmt.Sprint(par, ext))
}

func c27sizes(t *mc.T, max int) {
	src := newInst(t)
	n := big(t, max)
	src.collect(hx.ID(0xabc, 0x10, 0), hx.A("k", noise(n)))
	roundtrip(t, src, 0, t.Choose(channels, "channel"))
	mc.State(fmt.Sprint(n))
}

func jsonOf(t *mc.T, ms ...*appdash.Trace) string {
	b, err := json.Marshal(ms)
	if err != nil {
		t.Fail("%v", err)
	}
	return string(b)
}

func tr(id appdash.SpanID, anns []appdash.Annotation, sub ...*appdash.Trace) *appdash.Trace {
	return &appdash.Trace{Span: appdash.Span{ID: id, Annotations: anns}, Sub: sub}
}

func c27several(t *mc.T, max int) {
	dst := newInst(t)
	mk := func(id uint64, text string) *appdash.Trace {
		return tr(hx.ID(id, 0x20, 0), []appdash.Annotation{hx.A("Name", text)}, tr(hx.ID(id, 0x21, 0x20), []appdash.Annotation{hx.A("k", text)}))
	}
	all := []*appdash.Trace{mk(2, "two"), mk(2, "two again"), mk(3, "three"), mk(4, "four")}
	for id := uint64(2); id <= 3; id++ {
		if t.Choose(2, "stored") == 1 {
			dst.collect(hx.ID(id, 0x30, 0), hx.A("Name", "prior"))
		}
	}
	var l []*appdash.Trace
	for i, n := 0, t.Choose(max+1, "traces"); i < n; i++ {
		l = append(l, all[t.Choose(len(all), "trace")])
	}
	if msg := dst.imp(jsonOf(t, l...), false); msg != "" {
		t.Fail("upload of %s: %s", jsonOf(t, l...), msg)
	}
	for _, x := range l {
		if dst.m.T[x.Span.ID.Trace] == nil {
			for _, s := range append([]*appdash.Trace{x}, x.Sub...) {
				dst.m.Collect(s.Span.ID, s.Span.Annotations...)
			}
		}
	}
	dst.check("after the upload of " + jsonOf(t, l...))
	mc.State(dst.m.Canon())
}

func permalink(payload string, cut int) string {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	io.WriteString(z, payload)
	z.Close()
	return base64.RawURLEncoding.EncodeToString(b.Bytes()[:b.Len()-cut])
}

func c27malformed(t *mc.T) {
	good := `{"ID":{"Trace":"0000000000000005","Span":"0000000000000006","Parent":"0000000000000000"},"Annotations":[{"Key":"k","Value":"dg=="}],"Sub":null}`
	sub := func(s string) string { return strings.Replace(good, `"Sub":null`, `"Sub":[`+s+`]`, 1) }
	child := `{"ID":{"Trace":"0000000000000005","Span":"0000000000000007","Parent":"0000000000000006"},"Annotations":null,"Sub":null}`
	bad := []string{
		``, ` `, `[`, `]`, `{}`, `x`, `"x"`, `1`, `[1]`, `["x"]`, `[[]]`, `[{]`, `[` + good, `[` + good + `,`, good + `]`, `[` + good + `]]`, `[` + good + `] x`,
		`[null]`, `[` + good + `,null]`, `[null,` + good + `]`, `[` + sub(`null`) + `]`, `[` + sub(child+`,null`) + `]`, `[` + sub(`1`) + `]`,
		`[` + strings.Replace(good, `"0000000000000005"`, `"zz"`, 1) + `]`, `[` + strings.Replace(good, `"0000000000000005"`, `-5`, 1) + `]`,
		`[` + strings.Replace(good, `"0000000000000006"`, `"10000000000000000"`, 1) + `]`,
		`[` + strings.Replace(good, `"dg=="`, `"d"`, 1) + `]`, `[` + strings.Replace(good, `"dg=="`, `{}`, 1) + `]`, `[` + strings.Replace(good, `"k"`, `7`, 1) + `]`,
		`[` + good + `,` + strings.Replace(good, `0000000000000005`, `qq`, 1) + `]`,
		`[` + sub(strings.Replace(child, `0000000000000005`, `0000000000000001`, 1)) + `]`, // a part of another trace
		`[` + sub(strings.Replace(child, `"Sub":null`, `"Sub":[`+strings.Replace(child, `0000000000000005`, `0000000000000001`, 1)+`]`, 1)) + `]`,
		`[` + sub(strings.Replace(child, `0000000000000005`, `0000000000000009`, 1)) + `]`,
	}
	links := []string{"x", "!", "AAAA", base64.RawURLEncoding.EncodeToString([]byte(good)), permalink(good, 0) + "!", permalink("", 0), permalink("[", 0), permalink("["+good+"]", 0),
		permalink("null", 0), permalink("1", 0), permalink(good[:len(good)-1], 0), permalink(sub("null"), 0), permalink(sub(child+",null"), 0),
		permalink(sub(strings.Replace(child, `0000000000000005`, `0000000000000001`, 1)), 0), permalink(strings.Replace(good, `"0000000000000005"`, `"zz"`, 1), 0),
		base64.RawURLEncoding.EncodeToString([]byte{0x1f, 0x8b}), "H4sI", permalink(strings.Replace(good, "}", "", 1), 0)}
	dst := target(t, t.Choose(2, "prior contents"), nil)
	k := t.Choose(len(bad)+len(links), "input")
	if k < len(bad) {
		if msg := refused(do(dst.app, "POST", "/traces/upload", bad[k])); msg != "" && !strings.HasPrefix(msg, "a panic") {
			t.Fail("the malformed upload %s is accepted: %s", bad[k], msg)
		}
		dst.check("after the malformed upload " + bad[k])
	} else {
		l := links[k-len(bad)]
		if l == permalink(good, 0)+"!" {
			// garbage after the end of a permalink: refused, or without effect
			w := dst.get("/traces/5?permalink=" + l)
			if w.Code == 200 {
				dst.m.Collect(hx.ID(5, 6, 0), hx.A("k", "v"))
			}
		} else if msg := refused(dst.get("/traces/5?permalink=" + l)); msg != "" && !strings.HasPrefix(msg, "a panic") {
			t.Fail("the malformed permalink %s is accepted: %s", l, msg)
		}
		dst.check("after the malformed permalink " + l)
	}
	mc.State(fmt.Sprint(k))
}

// sample is an instance with a trace to export.
func sample(t *mc.T, k int) *inst {
	src := newInst(t)
	src.collect(hx.ID(0xabc, 0x10, 0), contents[[]int{1, 8}[k]](t)...)
	if k == 1 {
		src.collect(hx.ID(0xabc, 0x11, 0x10), contents[4](t)...)
	}
	return src
}

// tolerant checks an import of a damaged export: nothing is stored, or the very trace.
func tolerant(t *mc.T, src *inst, data string, link bool) {
	tr := src.traceID()
	dst := target(t, 1, src)
	msg := dst.imp(data, link)
	if link && msg == "" {
		dst.adopt(src.m, tr)
	} else if !link && msg == "" {
		if _, err := dst.store.Trace(tr); err == nil {
			dst.adopt(src.m, tr)
		}
	}
	dst.check(fmt.Sprintf("after the import of the damaged data %s (%s)", data, msg))
	mc.State(msg[:min(len(msg), 40)])
}

// big chooses one of n.
func big(t *mc.T, n int) int {
	k := t.Choose((n+199)/200, "place") * 200
	return k + t.Choose(min(200, n-k), "place")
}

func c27truncated(t *mc.T) {
	src := sample(t, t.Choose(2, "trace"))
	data, link := src.export(src.traceID(), []int{0, 2}[t.Choose(2, "channel")])
	from := 0
	if link {
		from = strings.Index(data, "permalink=") + len("permalink=")
	}
	n := from + big(t, len(data)-from)
	if n == from && link {
		return // no permalink at all
	}
	cut := data[:n]
	tr := src.traceID()
	if !link {
		dst := target(t, 1, src)
		if msg := dst.imp(cut, false); msg == "" {
			t.Fail("the truncated upload %q is accepted", cut)
		}
		dst.check("after the truncated upload " + cut)
		mc.State("refused")
		return
	}
	_ = tr
	tolerant(t, src, cut, true)
}

func c27corrupted(t *mc.T, others int) {
	src := sample(t, 0)
	data, link := src.export(src.traceID(), []int{0, 2}[t.Choose(2, "channel")])
	from := 0
	if link {
		from = strings.Index(data, "permalink=") + len("permalink=")
	}
	n := from + big(t, len(data)-from)
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	if !link {
		bad := "[]{}x\",:\x00\\"
		c := t.Choose(min(others, len(bad)), "byte")
		b := []byte(data)
		b[n] = bad[c]
		// an upload that is still well-formed may be another trace; it must be refused or stored as it is
		dst := target(t, 1, src)
		var l []*appdash.Trace
		werr := json.Unmarshal(b, &l)
		msg := dst.imp(string(b), false)
		if werr != nil {
			if msg == "" {
				t.Fail("the malformed upload %s is accepted", b)
			}
		} else if msg == "" {
			for _, x := range l {
				if dst.m.T[x.Span.ID.Trace] == nil {
					dst.m.Collect(x.Span.ID, x.Span.Annotations...)
				}
			}
		}
		dst.check(fmt.Sprintf("after the upload %s (%s)", b, msg))
		return
	}
	i := strings.IndexByte(abc, data[n])
	if i < 0 {
		t.Fail("the permalink has the byte %q", data[n])
	}
	// 5 alternatives: all single-bit changes but one; more: all
	c := t.Choose(others, "byte")
	x := 1 << c
	if c >= 6 {
		x = c + 3
	}
	b := []byte(data)
	b[n] = abc[i^(x&63)]
	if string(b) == data {
		return
	}
	tolerant(t, src, string(b), true)
}

// faulty is a store whose calls fail as chosen.
type faulty struct {
	*appdash.MemoryStore
	failed int
	half   bool
}

var errFault = errors.New("the store fails")

func (f *faulty) Trace(id appdash.ID) (*appdash.Trace, error) {
	if mc.Choose(2, "Trace fails") == 1 {
		f.failed++
		return nil, errFault
	}
	return f.MemoryStore.Trace(id)
}

func (f *faulty) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	if mc.Choose(2, "Collect fails") == 1 {
		f.failed++
		return errFault
	}
	return f.MemoryStore.Collect(id, as...)
}

func c27faults(t *mc.T) {
	dst := newInst(t)
	f := &faulty{MemoryStore: dst.store}
	dst.app.Store = f
	a := tr(hx.ID(5, 0x20, 0), []appdash.Annotation{hx.A("Name", "n")}, tr(hx.ID(5, 0x21, 0x20), []appdash.Annotation{hx.A("k", "v")}))
	b := tr(hx.ID(6, 0x20, 0), nil)
	stored := t.Choose(2, "stored") == 1
	if stored {
		dst.collect(hx.ID(5, 0x30, 0), hx.A("Name", "prior"))
	}
	link := t.Choose(2, "permalink") == 1
	var msg string
	if link {
		j, _ := json.Marshal(a)
		msg = dst.imp("/traces/5?permalink="+permalink(string(j), 0), true)
	} else {
		msg = dst.imp(jsonOf(t, a, b), false)
	}
	if (msg != "") != (f.failed > 0) {
		t.Fail("%d calls of the store failed, the import says %q", f.failed, msg)
	}
	if f.failed == 0 {
		l := []*appdash.Trace{b}
		if link {
			l = nil
		}
		if !stored {
			l = append(l, a, a.Sub[0])
		}
		for _, x := range l {
			dst.m.Collect(x.Span.ID, x.Span.Annotations...)
		}
		dst.check("after the import")
	} else if stored {
		if msg := hx.CheckOne(dst.store.Trace, dst.m, 5); msg != "" {
			t.Fail("after a failed import: %s", msg)
		}
	}
	mc.State(fmt.Sprint(stored, link, msg))
}

// racing is a store with scheduling points.
type racing struct{ *appdash.MemoryStore }

func (r racing) Trace(id appdash.ID) (*appdash.Trace, error) {
	mc.Point("Trace")
	defer mc.Point("Trace done")
	return r.MemoryStore.Trace(id)
}

func (r racing) Collect(id appdash.SpanID, as ...appdash.Annotation) error {
	mc.Point("Collect")
	return r.MemoryStore.Collect(id, as...)
}

func c27conc(t *mc.T) {
	dst := newInst(t)
	dst.app.Store = racing{dst.store}
	mk := func(id uint64, text string) *appdash.Trace {
		return tr(hx.ID(id, 0x20, 0), []appdash.Annotation{hx.A("Name", text)}, tr(hx.ID(id, 0x21, 0x20), []appdash.Annotation{hx.A("k", text)}))
	}
	a, a2, b := mk(5, "five"), mk(5, "five again"), mk(6, "six")
	link := func(x *appdash.Trace) func() string {
		j, _ := json.Marshal(x)
		u := "/traces/" + x.Span.ID.Trace.String() + "?permalink=" + permalink(string(j), 0)
		return func() string { return dst.imp(u, true) }
	}
	up := func(l ...*appdash.Trace) func() string {
		j := jsonOf(t, l...)
		return func() string { return dst.imp(j, false) }
	}
	pairs := [][2]func() string{
		{up(a), up(a)}, {up(a), up(a2)}, {link(a), link(a)}, {link(a), up(a2, b)}, {up(a, b), up(b, a)}, {up(a), up(b)},
	}
	k := t.Choose(len(pairs), "imports")
	var ts []*mc.T
	for i := range pairs[k] {
		f := pairs[k][i]
		ts = append(ts, t.Go(fmt.Sprint("import", i), func() {
			if msg := f(); msg != "" {
				mc.Fail("import: %s", msg)
			}
		}))
	}
	t.Join(ts...)
	mc.Calm()
	// each trace is the one of one of the imports
	five, err := dst.store.Trace(5)
	if k == 5 || err == nil {
		if err != nil {
			t.Fail("trace 5: %v", err)
		}
		g := hx.Tree(five)
		if g != hx.Tree(a) && (g != hx.Tree(a2) || k != 1 && k != 3) {
			t.Fail("trace 5 is none of the imported ones: %s", g)
		}
	} else {
		t.Fail("trace 5 was not imported")
	}
	six, err := dst.store.Trace(6)
	if (err == nil) != (k >= 3) {
		t.Fail("trace 6: %v", err)
	}
	if err == nil && hx.Tree(six) != hx.Tree(b) {
		t.Fail("trace 6 is %s", hx.Tree(six))
	}
	mc.State(fmt.Sprint(k, hx.Tree(five)))
}
