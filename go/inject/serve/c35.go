package main

import (
	"crypto/tls"
	"fmt"
	"html"
	"regexp"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// c35units: the settings of serve.
func c35units() {
	kit.Prop("C35", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, o mc.Options, body func(t *mc.T)) {
			o.Horizon, o.NoPower = 3000000, true
			us = append(us, &kit.Unit{Name: name, Rule: rule, Opt: o, Body: body})
		}
		d := pick(tier, 3, 4)
		for _, age := range []string{"10s", "0"} {
			for f := 0; f < c35acts; f++ {
				age, f := age, f
				add(fmt.Sprintf("age/%s/first=%d", age, f), fmt.Sprintf("all histories of a span of trace 1 and %d further steps (first action fixed), each a wait of one of %d lengths and a span of trace 1 or 2, an upload of trace 3, or a save, kill and restart, served with --delete-after=%s", d, len(c35waits), age), mc.Options{NoPreempt: true}, func(t *mc.T) { c35age(t, age, f, d) })
			}
		}
		add("age/sample-data", "sample data ages like everything else", mc.Options{NoPreempt: true}, c35sample)
		add("age/default", "the default age", mc.Options{NoPreempt: true}, c35default)
		add("age/concurrent", fmt.Sprintf("all schedules with <= %d preemptions of a span from a client and an upload that arrive when traces are due, then restarts", pick(tier, 2, 3)), mc.Options{Bound: pick(tier, 2, 3)}, c35conc)
		h := pick(tier, 5, 7)
		for i := range c35files {
			i := i
			add(fmt.Sprintf("file/%d", i), fmt.Sprintf("settings %v: all histories of %d spans and waits; every moment at which a file is written, and its contents", c35files[i], h), mc.Options{NoPreempt: true}, func(t *mc.T) { c35file(t, c35files[i], h) })
		}
		add("bad file/truncated", "a start on every truncation of a store file", mc.Options{NoPreempt: true}, func(t *mc.T) { c35trunc(t) })
		add("bad file/foreign", "a start on foreign, damaged and unreadable files", mc.Options{NoPreempt: true, Bound: 1, FSFault: true}, c35foreign)
		add("listeners", "every combination of addresses, protocols and clients", mc.Options{NoPreempt: true}, c35listen)
		add("bad settings", "settings that cannot be used", mc.Options{NoPreempt: true}, c35bad)
		add("base URL", "every combination of URL, address and protocol: where the links of the pages lead", mc.Options{NoPreempt: true}, c35base)
		return
	})
}

const c35acts = 4

var c35waits = []time.Duration{0, 5 * time.Second, 10 * time.Second, 20*time.Second + time.Millisecond}

// aged is a trace with its age.
type aged struct {
	first time.Duration // first collection of the present incarnation
	base  time.Duration // the same, or the start of the server that loaded it
}

type ages struct {
	t   *mc.T
	age time.Duration // 0: never
	p   *program
	m   *hx.StoreM
	a   map[appdash.ID]*aged
}

func (s *ages) match(tr appdash.ID, m *hx.StoreM) string {
	return hx.CheckOne(func(id appdash.ID) (*appdash.Trace, error) { return get(s.p, id) }, m, tr)
}

// stored looks at a trace and follows its deletion.
func (s *ages) stored(tr appdash.ID, what string) bool {
	now := mc.Elapsed()
	a := s.a[tr]
	_, err := get(s.p, tr)
	switch {
	case err != nil && err != appdash.ErrTraceNotFound:
		s.t.Fail("%s: trace %v: %v", what, tr, err)
	case a == nil && err == nil:
		s.t.Fail("%s: trace %v is stored", what, tr)
	case a == nil:
		return false
	case err == nil:
		if msg := s.match(tr, s.m); msg != "" {
			s.t.Fail("%s: %s", what, msg)
		}
		return true
	case s.age == 0 || now-a.first <= s.age:
		s.t.Fail("%s: trace %v is gone %v after its first collection", what, tr, now-a.first)
	}
	delete(s.a, tr)
	s.m.Delete(tr)
	return false
}

func (s *ages) look(what string) {
	for tr := range s.a {
		s.stored(tr, what)
	}
}

// collected follows a collection that happened just now.
func (s *ages) collected(id appdash.SpanID, as []appdash.Annotation, what string) {
	now := mc.Elapsed()
	tr := id.Trace
	if a := s.a[tr]; a != nil {
		m := s.m.Clone()
		m.Collect(id, as...)
		if s.match(tr, m) == "" {
			s.m = m
		} else if s.age == 0 || now-a.first <= s.age {
			s.t.Fail("%s: %s", what, s.match(tr, m))
		} else { // evicted, and started afresh
			s.m.Delete(tr)
			delete(s.a, tr)
		}
	}
	if s.a[tr] == nil {
		s.m.Collect(id, as...)
		s.a[tr] = &aged{now, now}
	}
	s.look(what)
	for tr, a := range s.a {
		if s.age > 0 && now-a.base > 2*s.age {
			s.t.Fail("%s: trace %v has been there for %v, something was collected just now, and it is still stored", what, tr, now-a.base)
		}
	}
}

func c35age(t *mc.T, age string, first, depth int) {
	flags := "--persist-interval=3s --delete-after=" + age
	s := &ages{t: t, m: hx.NewM(), a: map[appdash.ID]*aged{}}
	s.age, _ = time.ParseDuration(age)
	s.p = serving(t, flags)
	rc := remote("")
	n := uint64(0)
	send := func(tr uint64, what string) {
		n++
		id, as := hx.ID(tr, 100+n, 0), []appdash.Annotation{hx.A("n", fmt.Sprint(n))}
		if n > 1 {
			id.Parent = appdash.ID(100 + n - 1)
		}
		if err := rc.Collect(id, as...); err != nil {
			t.Fail("%s: Collect: %v", what, err)
		}
		mc.AfterIdle()
		s.collected(id, as, what)
	}
	what := "span of 1"
	send(1, what)
	for i := 0; i < depth; i++ {
		w := c35waits[t.Choose(len(c35waits), "wait")]
		mc.SleepIdle(w)
		act := first
		if i > 0 {
			act = t.Choose(c35acts, "action")
		}
		what += fmt.Sprintf(", after %v ", w)
		switch act {
		case 0, 1:
			what += fmt.Sprintf("span of %d", act+1)
			send(uint64(act+1), what)
		case 2:
			what += "upload of 3"
			s.look(what)
			had := s.stored(3, what)
			if r := do(s.p.h, request{method: "POST", target: "/traces/upload", body: c35upload}); r.Code != 200 {
				t.Fail("%s: status %d: %s", what, r.Code, r.Body)
			}
			mc.AfterIdle()
			if !had {
				s.collected(hx.ID(3, 6, 0), []appdash.Annotation{hx.A("Name", "v")}, what)
			}
			s.look(what)
		default:
			what += "restart"
			mc.SleepIdle(3500 * time.Millisecond)
			s.look(what)
			kill(t, i+1)
			s.p = serving(t, flags)
			rc = remote("")
			for _, a := range s.a {
				a.base = mc.Elapsed()
			}
			s.look(what)
		}
		mc.State(s.m.Canon())
	}
	// In the end nothing stays for ever.
	if s.age > 0 {
		mc.SleepIdle(2*s.age + time.Millisecond)
		send(4, what+", a span of 4 in the end")
	}
}

const c35upload = `[{"ID":{"Trace":"0000000000000003","Span":"0000000000000006","Parent":"0000000000000000"},"Annotations":[{"Key":"Name","Value":"dg=="}],"Sub":null}]`

func c35sample(t *mc.T) {
	p := serving(t, "--sample-data --delete-after=10s")
	samples(t, p, 60)
	mc.SleepIdle([]time.Duration{1, 9 * time.Second, 10 * time.Second}[t.Choose(3, "wait")])
	samples(t, p, 60)
	mc.SleepIdle(20*time.Second + 1)
	m := hx.NewM()
	put(t, remote(""), m, hx.ID(1, 2, 0), hx.A("Name", "v"))
	mc.AfterIdle()
	checkUI(t, p, m, "after twice the age of the sample data")
}

func c35default(t *mc.T) {
	p := start(t, "serve")
	rc := remote("")
	m := hx.NewM()
	put(t, rc, m, hx.ID(1, 2, 0), hx.A("Name", "v"))
	mc.AfterIdle()
	checkUI(t, p, m, "with default settings")
	mc.SleepIdle(3 * time.Second)
	kill(t, 1)
	p = start(t, "serve")
	rc = remote("")
	checkUI(t, p, m, "after a restart")
	mc.SleepIdle(29 * time.Minute)
	put(t, rc, m, hx.ID(2, 2, 0), hx.A("Name", "v"))
	mc.AfterIdle()
	checkUI(t, p, m, "after 29 minutes")
	mc.SleepIdle(60*time.Minute + 1)
	m = hx.NewM()
	put(t, rc, m, hx.ID(3, 2, 0), hx.A("Name", "v"))
	mc.AfterIdle()
	checkUI(t, p, m, "after another hour")
}

// c35conc: a span and an upload at the same time.
func c35conc(t *mc.T) {
	flags := "--persist-interval=3s --delete-after=10s"
	p := serving(t, flags)
	rc := remote("")
	old := hx.NewM()
	put(t, rc, old, hx.ID(1, 2, 0), hx.A("Name", "old"))
	put(t, rc, old, hx.ID(3, 6, 0), hx.A("Name", "old"))
	mc.SleepIdle(20*time.Second + time.Millisecond)
	mc.Stir()
	a := t.Go("client", func() {
		if err := rc.Collect(hx.ID(1, 3, 2), hx.A("Name", "new")); err != nil {
			mc.Fail("Collect: %v", err)
		}
	})
	b := t.Go("upload", func() {
		if r := do(p.h, request{method: "POST", target: "/traces/upload", body: c35upload}); r.Code != 200 {
			mc.Fail("upload: status %d: %s", r.Code, r.Body)
		}
	})
	t.Join(a, b)
	mc.Calm()
	mc.AfterIdle()
	m := hx.NewM()
	m.Collect(hx.ID(1, 3, 2), hx.A("Name", "new"))
	// Trace 3 may still have been there when it was uploaded: then it has gone with the span.
	if _, err := get(p, 3); err == nil {
		m.Collect(hx.ID(3, 6, 0), hx.A("Name", "v"))
	}
	check(t, p, m, "after a span and an upload when everything is due")
	mc.SleepIdle(3500 * time.Millisecond)
	kill(t, 1)
	check(t, serving(t, flags), m, "after a restart")
	mc.State(m.Canon())
}

type c35setting struct {
	args     string
	file     string // "": never written
	interval time.Duration
	loads    bool
}

var c35files = []c35setting{
	{"", "/tmp/appdash.gob", 2 * time.Second, true},
	{"--store-file=/data/dir/a.gob", "/data/dir/a.gob", 2 * time.Second, true},
	{"-f /tmp/a.gob -p 3s", "/tmp/a.gob", 3 * time.Second, true},
	{"--store-file=/tmp/a.gob --persist-interval=0", "", 0, true},
	{"--store-file=", "", 0, false},
	{"--store-file= --persist-interval=1s", "", 0, false},
	{"--persist-interval=5s --delete-after=0 --debug --trace", "/tmp/appdash.gob", 5 * time.Second, true},
}

// c35file: when the store file is written.
func c35file(t *mc.T, c c35setting, steps int) {
	name := c.file
	if name == "" {
		name = "/tmp/appdash.gob"
		if c.loads {
			name = "/tmp/a.gob"
		}
	}
	// An earlier run leaves an image.
	m := hx.NewM()
	if t.Choose(2, "earlier run") == 1 {
		start(t, "serve", "--store-file", name)
		put(t, remote(""), m, hx.ID(9, 1, 0), hx.A("Name", "earlier"))
		mc.SleepIdle(2500 * time.Millisecond)
		kill(t, 1)
	}
	image, _ := mc.FSGet(name)
	if !c.loads {
		m = hx.NewM()
	}
	began := mc.Elapsed()
	args := append([]string{"serve"}, strings.Fields(c.args)...)
	p := start(t, args...)
	if p.h == nil {
		t.Fail("appdash %s: %v", strings.Join(args, " "), p.code)
	}
	checkUI(t, p, m, "at the start")
	rc := remote("")
	saved, due := m.Clone(), began+c.interval
	what := c.args + ":"
	for i := 0; i < steps; i++ {
		switch k := t.Choose(3, "step"); k {
		case 0:
			put(t, rc, m, hx.ID(uint64(1+i/2), uint64(10+i), 0), hx.A("Name", fmt.Sprint(i)))
			what += " span"
			mc.AfterIdle()
		default:
			d := []time.Duration{1100 * time.Millisecond, 2600 * time.Millisecond}[k-1]
			what += fmt.Sprint(" ", d)
			mc.SleepIdle(d)
		}
		if c.interval > 0 && mc.Elapsed() >= due {
			saved = m.Clone()
			for due <= mc.Elapsed() {
				due += c.interval
			}
		}
	}
	mc.AfterIdle()
	if c.interval == 0 {
		for _, e := range mc.FSEvents() {
			if e.At > began {
				t.Fail("%s: the file operation %s %s at %v", what, e.Op, e.Name, e.At-began)
			}
		}
		if now, _ := mc.FSGet(name); now != image {
			t.Fail("%s: the store file has changed", what)
		}
		mc.State(what)
		return
	}
	kill(t, 2)
	p = start(t, args...)
	if p.h == nil {
		t.Fail("%s and then a restart: %v", what, p.code)
	}
	check(t, p, saved, what+" and then a restart")
	mc.State(what)
}

// c35image is a store file.
func c35image(t *mc.T) string {
	serving(t, "--persist-interval=1s")
	rc := remote("")
	m := hx.NewM()
	put(t, rc, m, hx.ID(1, 2, 0), hx.A("Name", "a"), hx.A("", "\x00\xff"))
	put(t, rc, m, hx.ID(1, 3, 2), hx.A("Name", "b"))
	put(t, rc, m, hx.ID(4, 5, 0), hx.A("Name", "c"))
	mc.SleepIdle(1500 * time.Millisecond)
	img, ok := mc.FSGet(storeFile)
	if !ok && mc.FSFaults() == 0 {
		t.Fail("no store file is written")
	}
	kill(t, 1)
	return img
}

// c35refused checks that the program does not start on a file.
func c35refused(t *mc.T, what string) {
	before, _ := mc.FSGet(storeFile)
	began := mc.Elapsed()
	p := start(t, "serve", "--store-file", storeFile, "--persist-interval=1s")
	if p.h != nil {
		t.Fail("the server starts on %s", what)
	}
	p.failed("a start on " + what)
	mc.SleepIdle(5 * time.Second)
	if after, ok := mc.FSGet(storeFile); !ok || after != before {
		t.Fail("the start on %s failed (%v), and then the file was changed", what, p.code)
	}
	for _, e := range mc.FSEvents() {
		if e.At > began && !e.Fault {
			t.Fail("the start on %s failed (%v), and then there was the file operation %s %s", what, p.code, e.Op, e.Name)
		}
	}
}

func c35trunc(t *mc.T) {
	img := c35image(t)
	n := t.Choose((len(img)+99)/100, "hundreds")*100 + t.Choose(100, "bytes")
	if n < len(img) {
		mc.FSPut(storeFile, []byte(img[:n]))
		c35refused(t, fmt.Sprintf("the first %d of %d bytes of a store file", n, len(img)))
	}
}

func c35foreign(t *mc.T) {
	img := c35image(t)
	if mc.FSFaults() > 0 {
		return // (C05)
	}
	foreign := []string{"", "\x00", "garbage", "[]", strings.Repeat("\x00", 100), strings.Repeat("\xff", 100), "\x03\x04\x00\x02", img[1:], img[len(img)/2:], "\n" + img}
	k := t.Choose(len(foreign)+1, "contents")
	if k == len(foreign) { // the file is good, but cannot be read
		mc.FSPut(storeFile, []byte(img))
		p := start(t, "serve", "--store-file", storeFile, "--persist-interval=0")
		faults := mc.FSFaults()
		if p.h != nil {
			mc.AfterIdle()
			for _, tr := range []appdash.ID{1, 4} {
				if _, err := get(p, tr); err != nil {
					t.Fail("the server starts without the traces of a file that can be read in part only: %v", err)
				}
			}
		} else if faults == 0 {
			t.Fail("the server does not start on a good file: %v", p.code)
		}
		p.failed("a start on a file that cannot be read")
		if after, _ := mc.FSGet(storeFile); after != img {
			t.Fail("the file has changed")
		}
		mc.State(fmt.Sprint(p.h != nil, faults))
		return
	}
	mc.FSPut(storeFile, []byte(foreign[k]))
	c35refused(t, fmt.Sprintf("a file with the contents %.50q", foreign[k]))
	mc.State(fmt.Sprint(k))
}

var reBase = regexp.MustCompile(`<base href="([^"]*)">`)

// c35listen: addresses and protocols.
func c35listen(t *mc.T) {
	coll := []string{"", ":9001", "localhost:9001", "127.0.0.1:7701", "192.0.2.1:80", "[::1]:9001"}[t.Choose(6, "collector address")]
	web := []string{"", ":9000", "localhost:9000", "192.0.2.1:443", "[::1]:9000"}[t.Choose(5, "HTTP address")]
	useTLS := t.Choose(2, "TLS") == 1
	args := []string{"serve", "--store-file="}
	if coll != "" {
		args = append(args, "--collector", coll)
	} else {
		coll = ":7701"
	}
	if web != "" {
		args = append(args, "--http="+web)
	} else {
		web = ":7700"
	}
	want := mc.HTTPInfo{Addr: web}
	if useTLS {
		putCert()
		args = append(args, "--tls-cert", "/etc/cert.pem", "--tls-key", "/etc/key.pem")
		want.Cert, want.Key = "/etc/cert.pem", "/etc/key.pem"
	}
	p := start(t, args...)
	if p.h == nil {
		t.Fail("appdash %s: %v", strings.Join(args, " "), p.code)
	}
	if got := mc.HTTPServer(); got != want {
		t.Fail("appdash %s serves HTTP with %+v", strings.Join(args, " "), got)
	}
	addr := coll
	if strings.HasPrefix(addr, ":") {
		addr = "localhost" + addr
	}
	m := hx.NewM()
	for i, a := range []string{addr, "localhost:7709", "localhost:7700", "192.0.2.1:7701"} {
		for _, viaTLS := range []bool{false, true} {
			c := appdash.NewRemoteCollector(a)
			if viaTLS {
				c = appdash.NewTLSRemoteCollector(a, &tls.Config{ServerName: "localhost"})
			}
			id := hx.ID(uint64(1+i), 2, 0)
			err := c.Collect(id, hx.A("Name", "v"))
			mc.AfterIdle()
			if i == 0 && viaTLS == useTLS {
				if err != nil {
					t.Fail("appdash %s: Collect at %s: %v", strings.Join(args, " "), a, err)
				}
				m.Collect(id, hx.A("Name", "v"))
			}
		}
	}
	check(t, p, m, "appdash "+strings.Join(args, " "))
	mc.State(fmt.Sprint(args))
}

// c35bad: settings that cannot be used (see also C28).
func c35bad(t *mc.T) {
	putCert()
	mc.FSPut("/etc/empty", nil)
	bad := [][]string{
		{"--tls-cert=/etc/none", "--tls-key=/etc/key.pem"}, {"--tls-cert=/etc/cert.pem", "--tls-key=/etc/none"}, {"--tls-cert=/etc/cert.pem"}, {"--tls-key=/etc/key.pem"},
		{"--tls-cert=/etc/empty", "--tls-key=/etc/key.pem"}, {"--tls-cert=/etc/cert.pem", "--tls-key=/etc/empty"}, {"--tls-cert=/etc/key.pem", "--tls-key=/etc/cert.pem"},
		{"--url=/traces"}, {"--url=example.com:80"}, {"--url=http:"}, {"--http=nonsense"}, {"--http="}, {"--collector=:7800"},
	}
	k := t.Choose(len(bad), "setting")
	if k == len(bad)-1 { // the address is in use
		start(t, "serve", "--store-file=", "--collector=:7800", "--http=:7801")
		mc.ClearExt("http")
	}
	p := start(t, append([]string{"serve", "--store-file="}, bad[k]...)...)
	if p.h != nil {
		t.Fail("the server starts with %v", bad[k])
	}
	p.failed(fmt.Sprintf("a start with %v", bad[k]))
	if k < len(bad)-1 {
		if err := appdash.NewRemoteCollector("localhost:7701").Collect(hx.ID(1, 2, 0)); err == nil {
			t.Fail("the server does not start with %v, but collects", bad[k])
		}
	}
	mc.State(fmt.Sprint(bad[k]))
}

// c35base: the base URL.
func c35base(t *mc.T) {
	type c struct{ args, base string }
	cs := []c{
		{"", "SCHEME://localhost:7700/"},
		{"--http=:80", "SCHEME://localhost:80/"},
		{"--http=example.com:9000", "SCHEME://example.com:9000/"},
		{"--http=192.0.2.1:9000", "SCHEME://192.0.2.1:9000/"},
		{"--http=[::1]:9000", "SCHEME://[::1]:9000/"},
		{"--url=http://example.com", "http://example.com/"},
		{"--url=http://example.com/", "http://example.com/"},
		{"--url=https://example.com:8443", "https://example.com:8443/"},
		{"--url=https://example.com/appdash", "https://example.com/appdash/"},
		{"--url=https://example.com/appdash/", "https://example.com/appdash/"},
		{"--url=http://example.com --http=:9000", "http://example.com/"},
		{"--url=http://[::1]:99", "http://[::1]:99/"},
	}
	x := cs[t.Choose(len(cs), "settings")]
	scheme := "http"
	args := append([]string{"serve", "--store-file="}, strings.Fields(x.args)...)
	if t.Choose(2, "TLS") == 1 {
		scheme = "https"
		putCert()
		args = append(args, "--tls-cert=/etc/cert.pem", "--tls-key=/etc/key.pem")
	}
	want := strings.Replace(x.base, "SCHEME", scheme, 1)
	p := start(t, args...)
	if p.h == nil {
		t.Fail("appdash %s: %v", strings.Join(args, " "), p.code)
	}
	if r := do(p.h, request{method: "POST", target: "/traces/upload", body: c35upload}); r.Code != 200 {
		t.Fail("upload: status %d: %s", r.Code, r.Body)
	}
	for _, page := range []string{"/", "/traces", "/traces/3", "/traces/3/6", "/aggregate"} {
		b := do(p.h, request{target: page}).Body.String()
		if l := attrs(b, reBase); len(l) != 1 || l[0] != want {
			t.Fail("appdash %s: page %s has the base URL %q instead of %s", strings.Join(args, " "), page, l, want)
		}
		for _, src := range regexp.MustCompile(`(?:src|href)="([^"]*static/[^"]*)"`).FindAllStringSubmatch(b, -1) {
			u := html.UnescapeString(src[1])
			if !strings.HasPrefix(u, want+"static/") && !strings.HasPrefix(u, "/static/") && !strings.HasPrefix(u, "static/") {
				t.Fail("appdash %s: page %s refers to %s, the base URL is %s", strings.Join(args, " "), page, u, want)
			}
		}
	}
	mc.State(fmt.Sprint(args))
}

