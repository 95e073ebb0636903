package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// c28units: basic auth.
func c28units() {
	kit.Prop("C28", func(tier string) (us []*kit.Unit) {
		add := func(name, rule string, race bool, bound int, body func(t *mc.T)) {
			us = append(us, &kit.Unit{Name: name, Rule: rule, Race: race, Opt: mc.Options{Bound: bound, Horizon: 1000000}, Body: body})
		}
		all := tier != "quick"
		for i := range credentials {
			i := i
			rule := "every truncation, extension and repetition, and the change of every byte to 12 others, of the right header"
			if all {
				rule = "every truncation, extension and repetition, and the change of every byte to every other, of the right header"
			}
			add(fmt.Sprintf("headers/%d", i), fmt.Sprintf("user and password %.30q: %s; related schemes, encodings and credentials", credentials[i], rule), false, 0, func(t *mc.T) { c28headers(t, i, all) })
		}
		add("settings", fmt.Sprintf("every setting of up to %d characters from an alphabet of 5, over plain TCP and TLS", pick(tier, 4, 5)), false, 0, func(t *mc.T) { c28settings(t, pick(tier, 4, 5)) })
		add("routes", "every route and method, without, with wrong and with right credentials, compared with a server that requires none", false, 0, c28routes)
		add("sequences", fmt.Sprintf("all sequences of %d requests with different credentials", pick(tier, 4, 6)), false, 0, func(t *mc.T) { c28sequences(t, pick(tier, 4, 6)) })
		add("start", "settings of other kinds that are malformed, with and without basic auth", false, 0, c28start)
		add("concurrent", fmt.Sprintf("all schedules with <= %d preemptions of requests with different credentials", pick(tier, 2, 3)), false, pick(tier, 2, 3), c28conc)
		add("concurrent-race", "all schedules with <= 1 preemption of requests with different credentials", true, 1, c28conc)
		return
	})
}

var credentials = []string{"u:p", "user:passwd", "user:pa:ss:wd:", "üser: \xff", "a:" + strings.Repeat("long password ", 8), "x:\x00"}

func basic(userpass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(userpass))
}

func auth(vals ...string) http.Header {
	h := http.Header{}
	for _, v := range vals {
		h["Authorization"] = append(h["Authorization"], v)
	}
	return h
}

// protected starts a server with basic auth, without other effects.
func protected(t *mc.T, cred string, more ...string) http.Handler {
	p := start(t, append([]string{"serve", "--store-file=", "--basic-auth", cred}, more...)...)
	if p.h == nil {
		t.Fail("the server does not start with the credentials %q: %v", cred, p.code)
	}
	return p.h
}

// unauthorized tells what is wrong with the answer to a request that must not be let in.
func unauthorized(w *httptest.ResponseRecorder) string {
	b := w.Body.String()
	switch {
	case w.Code != 401:
		return fmt.Sprintf("status %d", w.Code)
	case !strings.HasPrefix(w.Header().Get("WWW-Authenticate"), "Basic realm="):
		return fmt.Sprintf("the challenge %q", w.Header()["Www-Authenticate"])
	case strings.Contains(b, "<html") || strings.Contains(b, "Trace") || len(b) > 200:
		return fmt.Sprintf("the body %.200q", b)
	}
	return ""
}

const upload = `[{"ID":{"Trace":"0000000000000005","Span":"0000000000000006","Parent":"0000000000000000"},"Annotations":[{"Key":"Name","Value":"dg=="}],"Sub":null}]`

// shut checks that a request with the header is refused and reaches nothing.
func shut(t *mc.T, h http.Handler, right string, hd http.Header) {
	for _, r := range []request{{target: "/traces", header: hd}, {method: "POST", target: "/traces/upload", body: upload, header: hd}} {
		if msg := unauthorized(do(h, r)); msg != "" {
			t.Fail("%s %s with the headers %.300q (right: %q): %s", r.method, r.target, fmt.Sprint(hd), right, msg)
		}
	}
	if w := do(h, request{target: "/traces/5", header: auth(right)}); w.Code == 200 {
		t.Fail("an upload with the headers %q (right: %q) was refused but stored", fmt.Sprint(hd), right)
	}
}

func c28headers(t *mc.T, i int, all bool) {
	cred := credentials[i]
	right := basic(cred)
	h := protected(t, cred)
	if w := do(h, request{target: "/traces", header: auth(right)}); w.Code != 200 || !strings.Contains(w.Body.String(), "</html>") {
		t.Fail("GET /traces with the right credentials: status %d", w.Code)
	}
	seen := map[string]bool{right: true}
	try := func(v string) {
		if !seen[v] {
			seen[v] = true
			shut(t, h, right, auth(v))
		}
	}
	up := strings.Split(cred, ":")
	switch t.Choose(6, "kind") {
	case 0: // truncations from both ends
		for n := 0; n <= len(right); n++ {
			try(right[:n])
			try(right[n:])
		}
	case 1: // extensions
		for _, x := range []string{" ", "=", "\x00", "\t", ",", "A", "x", ":", right, ", " + right, "\r\n", "0"} {
			try(right + x)
			try(x + right)
			for n := 1; n < len(right); n++ {
				try(right[:n] + x + right[n:])
			}
		}
	case 2: // bytes changed
		for n := range right {
			b := []byte(right)
			for _, d := range []byte{1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xff, right[n], right[n] ^ ' ', right[n] ^ '='} {
				b[n] = right[n] ^ d
				try(string(b))
			}
			for c := 0; all && c < 256; c++ {
				b[n] = byte(c)
				try(string(b))
			}
		}
	case 3: // two bytes exchanged
		for n := range right {
			for m := 0; m < n; m++ {
				b := []byte(right)
				b[n], b[m] = b[m], b[n]
				try(string(b))
			}
		}
	case 4: // related credentials, schemes and encodings
		enc := right[len("Basic "):]
		raw := []byte(cred)
		for _, v := range []string{"", "Basic", "Basic ", "basic " + enc, "BASIC " + enc, "Bearer " + enc, "Digest " + enc, "Basic  " + enc, "Basic\t" + enc, enc, cred, "Basic " + cred, "Basic=" + enc,
			"Basic " + base64.RawStdEncoding.EncodeToString(raw), "Basic " + strings.ToLower(enc), "Basic " + strings.ToUpper(enc), "Basic " + base64.StdEncoding.EncodeToString([]byte(enc)),
			"Basic " + base64.URLEncoding.EncodeToString([]byte("?"+cred)), "Basic " + fmt.Sprintf("%x", cred), "Basic " + strings.Repeat("=", 4), right + "," + right} {
			try(v)
		}
		pw := strings.Join(up[1:], ":")
		for _, c := range []string{"", ":", up[0], up[0] + ":", ":" + pw, pw + ":" + up[0], strings.ToUpper(cred), strings.ToLower(cred), cred + ":", cred + " ", cred + "\n", cred + "\x00", " " + cred,
			up[0] + ":" + pw[:len(pw)-1], up[0] + ":" + pw + pw, up[0] + ":*", "admin:admin", "*:*", up[0] + "::" + pw, up[0] + pw, strings.TrimRight(cred, ":"), up[0] + ":" + strings.Split(pw, ":")[0], strings.Replace(cred, "\x00", "", 1)} {
			try(basic(c))
		}
	case 5: // in other places
		for _, hd := range []http.Header{{}, {"Authorization": nil}, {"Authorization": {""}}, {"Proxy-Authorization": {right}}, {"X-Authorization": {right}}, {"Www-Authenticate": {right}},
			{"Cookie": {"Authorization=" + right}}, {"Authorisation": {right}}, {"X-Forwarded-For": {"127.0.0.1"}}, auth("", "x"), auth("wrong", "Basic x")} {
			shut(t, h, right, hd)
		}
		for _, u := range []string{"//" + "u:p@example.com/traces", "/traces?Authorization=x", "/traces?user=" + "u"} {
			if msg := unauthorized(do(h, request{target: u})); msg != "" {
				t.Fail("GET %s: %s", u, msg)
			}
		}
	}
	if w := do(h, request{target: "/traces", header: auth(right)}); w.Code != 200 {
		t.Fail("GET /traces with the right credentials after wrong ones: status %d", w.Code)
	}
	mc.State(fmt.Sprint(i, len(seen)))
}

func c28settings(t *mc.T, max int) {
	n := t.Choose(max+1, "length")
	s := ""
	for i := 0; i < n; i++ {
		s += []string{":", "u", "p", " ", "\x00"}[t.Choose(5, "character")]
	}
	args := []string{"serve", "--store-file=", "--basic-auth=" + s}
	if n < 4 && t.Choose(2, "TLS") == 1 {
		putCert()
		args = append(args, "--tls-cert=/etc/cert.pem", "--tls-key=/etc/key.pem")
	}
	p := start(t, args...)
	open := func(hd http.Header) bool {
		w := do(p.h, request{target: "/traces", header: hd})
		switch {
		case w.Code == 200 && strings.Contains(w.Body.String(), "</html>"):
			return true
		case unauthorized(w) == "":
			return false
		}
		t.Fail("setting %q: GET /traces is answered %d: %s", s, w.Code, unauthorized(w))
		return false
	}
	k := strings.Index(s, ":")
	usable := k > 0 && k < len(s)-1
	switch {
	case s == "":
		if p.h == nil || !open(nil) || !open(auth("Basic eDp5")) {
			t.Fail("the server without basic auth does not serve everybody: %v", p.code)
		}
	case p.h == nil:
		if usable && !strings.ContainsAny(s, " \x00") {
			t.Fail("the server does not start with the setting %q: %v", s, p.code)
		}
	default:
		if !usable {
			t.Fail("the server starts with the unusable setting %q", s)
		}
		for _, c := range []string{"", ":", s[:k], s[:k] + ":", s[k:], "u:p", "p:u", "u:u", s + ":", "x"} {
			if c != s && open(auth(basic(c))) {
				t.Fail("setting %q: %q is let in", s, c)
			}
		}
		if open(nil) {
			t.Fail("setting %q: no credentials are needed", s)
		}
		if !open(auth(basic(s))) {
			t.Fail("setting %q: the right credentials are not let in", s)
		}
	}
	mc.State(s)
}

func c28routes(t *mc.T) {
	paths := []string{"/", "/traces", "/traces?show=7", "/traces/7", "/traces/7/1", "/traces/7/profile", "/traces/7/1/profile", "/traces/99", "/traces/x", "/traces/upload", "/aggregate", "/aggregate?selection=x",
		"/dashboard", "/dashboard/data", "/static/", "/static/x.js", "/x", "/debug/pprof/", "/debug/pprof/cmdline", "//", "/../traces", "/traces/", "*", "/favicon.ico", "/login"}
	methods := []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "CONNECT", "PATCH", "x"}
	path, method := paths[t.Choose(len(paths), "path")], methods[t.Choose(len(methods), "method")]
	tls := t.Choose(2, "TLS") == 1
	var more []string
	if tls {
		putCert()
		more = []string{"--tls-cert=/etc/cert.pem", "--tls-key=/etc/key.pem"}
	}
	q := start(t, append([]string{"serve", "--store-file=", "--collector=:1"}, more...)...)
	if q.h == nil {
		t.Fail("the server does not start: %v", q.code)
	}
	h := protected(t, "user:passwd", append(more, "--collector=:2")...)
	right := auth(basic("user:passwd"))
	j, _ := json.Marshal([]*appdash.Trace{{Span: appdash.Span{ID: hx.ID(7, 1, 0), Annotations: appdash.Annotations{hx.A("Name", "n")}}}})
	for _, x := range []http.Handler{q.h, h} {
		if w := do(x, request{method: "POST", target: "/traces/upload", body: string(j), header: right}); w.Code != 200 {
			t.Fail("upload: %d %s", w.Code, w.Body)
		}
	}
	r := request{method: method, target: path, body: "[]"}
	for _, hd := range []http.Header{nil, auth(basic("user:passwe")), auth("Basic"), auth("Bearer x")} {
		r.header = hd
		if msg := unauthorized(do(h, r)); msg != "" && !(method == "HEAD" && strings.HasPrefix(msg, "the body")) {
			t.Fail("%s %s without the right credentials: %s", method, path, msg)
		}
	}
	var answers []string
	for i, x := range []http.Handler{q.h, q.h, h} {
		r.header = []http.Header{nil, auth(basic("user:passwe")), right}[i]
		w := do(x, r)
		if w.Code == 401 {
			t.Fail("%s %s (case %d) is answered 401", method, path, i)
		}
		answers = append(answers, fmt.Sprint(w.Code, w.Header().Get("Content-Type"), w.Header().Get("Location"), len(w.Header()["Www-Authenticate"]), w.Body))
	}
	if answers[0] != answers[1] || answers[0] != answers[2] {
		t.Fail("%s %s is answered differently: %.300q", method, path, answers)
	}
	mc.State(path + method)
}

func c28sequences(t *mc.T, n int) {
	h := protected(t, "user:passwd")
	hs := []http.Header{nil, auth(basic("user:passwd")), auth(basic("user:passwD")), auth(basic("User:passwd")), auth(basic("user:")), auth("Basic")}
	seq := ""
	for i := 0; i < n; i++ {
		k := t.Choose(len(hs), "credentials")
		seq += fmt.Sprint(k)
		w := do(h, request{target: "/traces", header: hs[k]})
		if k == 1 {
			if w.Code != 200 {
				t.Fail("after %s the right credentials are answered %d", seq, w.Code)
			}
		} else if msg := unauthorized(w); msg != "" {
			t.Fail("after %s: %s", seq, msg)
		}
	}
	mc.State(seq)
}

func c28start(t *mc.T) {
	putCert()
	mc.FSPut("/etc/empty", nil)
	mc.FSPut("/etc/garbage", []byte("-----BEGIN garbage"))
	bad := [][]string{
		{"--url=://"}, {"--url=example.com"}, {"--url=http://"}, {"--url=%zz"}, {"--http=nonsense"}, {"--http=a:b:c"},
		{"--tls-cert=/etc/none", "--tls-key=/etc/key.pem"}, {"--tls-cert=/etc/cert.pem"}, {"--tls-key=/etc/key.pem"}, {"--tls-cert=/etc/cert.pem", "--tls-key=/etc/garbage"},
		{"--tls-cert=/etc/empty", "--tls-key=/etc/key.pem"}, {"--tls-cert=/etc/key.pem", "--tls-key=/etc/cert.pem"}, {"--store-file=/etc/garbage"}, {"--store-file=/etc/empty"}, {"--delete-after=soon"}, {"--persist-interval=1"}, {"--no-such-option"},
	}
	k := t.Choose(len(bad), "setting")
	args := []string{"serve", "--store-file="}
	if t.Choose(2, "basic auth") == 1 {
		args = append(args, "--basic-auth=u:p")
	}
	p := start(t, append(args, bad[k]...)...)
	if p.h != nil {
		t.Fail("the server starts with %v", bad[k])
	}
	p.failed(fmt.Sprintf("a start with %v", bad[k]))
	mc.State(fmt.Sprint(bad[k]))
}

func c28conc(t *mc.T) {
	h := protected(t, "user:passwd")
	mc.Stir()
	hs := []http.Header{nil, auth(basic("user:passwd")), auth(basic("user:passwD"))}
	a, b := t.Choose(3, "first"), t.Choose(3, "second")
	var ts []*mc.T
	for i, k := range []int{a, b, 1} {
		k := k
		r := request{method: "POST", target: "/traces/upload", body: "[]", header: hs[k].Clone()}
		ts = append(ts, t.Go(fmt.Sprint("request", i), func() {
			w := do(h, r)
			if k == 1 {
				if w.Code != 200 {
					mc.Fail("the right credentials are answered %d", w.Code)
				}
			} else if msg := unauthorized(w); msg != "" {
				mc.Fail("wrong credentials: %s", msg)
			}
		}))
	}
	t.Join(ts...)
	mc.State(fmt.Sprint(a, b))
}
