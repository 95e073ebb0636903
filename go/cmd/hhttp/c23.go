package main

import (
	"fmt"
	"net/http"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C23: values of redacted headers are never recorded, all others are.
func init() {
	kit.Prop("C23", func(tier string) (us []*kit.Unit) {
		values := map[string]int{"quick": 4, "thorough": len(c23values)}[tier]
		for place := range c23places {
			place := place
			us = append(us, &kit.Unit{
				Name: "place/" + c23places[place],
				Rule: "all combinations of 6 lists of redacted headers, up to two headers out of 9 names (spellings) with 4 (thorough: 7) lists of values in this place, and another header elsewhere; recorded by client and server, with all orders of iteration within one deviation",
				Opt:  mc.Options{MapOrder: 4, Bound: map[string]int{"quick": 1, "thorough": 2}[tier]},
				Body: func(t *mc.T) { c23(t, place, 2, values) },
			}, &kit.Unit{
				Name: "both/" + c23places[place],
				Rule: "the same header name, in two spellings or one, as header and as trailer of the same message, with all lists of values, with spare capacity or not",
				Opt:  mc.Options{MapOrder: 4, Bound: 1},
				Body: func(t *mc.T) { c23both(t, place, values) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "changes",
			Rule: "all sequences of three messages in the 4 places, each after RedactedHeaders has become one of 6 lists",
			Opt:  mc.Options{NoPreempt: true},
			Body: func(t *mc.T) {
				for i := 0; i < 3; i++ {
					list := c23redacted[t.Choose(len(c23redacted), "redacted headers")]
					place := t.Choose(len(c23places), "place")
					h, tr := http.Header{}, http.Header{}
					for j, n := range c23names {
						to := h
						if j%3 == 2 {
							to = tr
						}
						to[n] = []string{fmt.Sprintf("value-%d-%d-v", i, j)}
					}
					c23send(t, place, list, h, tr)
				}
			},
		})
		return
	})
}

// Where headers come: in a request to a server, its response, a request of a client, its response.
var c23places = []string{"server request", "server response", "client request", "client response"}

var c23redacted = [][]string{{"Authorization"}, {"authorization", "X-SECRET"}, {"X-Api-Key", "Cookie", "Set-Cookie"}, {}, {"cookie", "Authorization", "x-secret", "x-api-key"}, {"X-Plain"}}

var c23names = []string{"Authorization", "authorization", "X-Secret", "x-sEcReT", "Cookie", "X-Plain", "x-plain", "Authorization-Info", "X-Api-Key"}

var c23values = [][]string{{"v1"}, {"v1", "v2"}, {""}, {}, {"v1, v2"}, {"", "v2"}, {"v1", "v1", "v3"}}

// isSecret tells whether a name is to be redacted.
func isSecret(list []string, name string) bool {
	name = strings.TrimPrefix(name, http.TrailerPrefix)
	for _, n := range list {
		if http.CanonicalHeaderKey(n) == http.CanonicalHeaderKey(name) {
			return true
		}
	}
	return false
}

// c23mark makes values that can be recognised, with a backing array of the given spare capacity.
func c23mark(prefix string, vs []string, spare int) []string {
	r := make([]string, 0, len(vs)+spare)
	for i, v := range vs {
		if v != "" {
			v = strings.ReplaceAll(v, "v", fmt.Sprintf("%s-%d-v", prefix, i))
		}
		r = append(r, v)
	}
	return r
}

func c23dump(hs ...http.Header) string {
	s := ""
	for _, h := range hs {
		s += headerString(h) + "|"
		for _, k := range append(append([]string(nil), c23names...), "Trailer:Authorization") {
			if v, ok := h[k]; ok {
				s += fmt.Sprintf("%s=%q;", k, v[:cap(v)])
			}
		}
	}
	return s
}

// c23send sends a message with headers h and trailers tr through the middleware or the transport, and checks what is recorded.
func c23send(t *mc.T, place int, list []string, h, tr http.Header) {
	httptrace.RedactedHeaders = list
	earlier := len(collected())
	before := c23dump(h, tr)
	ms := capture{}
	r, _ := http.NewRequest("GET", "http://example.com/p", nil)
	var rec map[string]string
	switch place {
	case 0, 1:
		w := newRW()
		if place == 0 {
			r.Header, r.Trailer = h, tr
		}
		httptrace.Middleware(ms, &httptrace.MiddlewareConfig{})(w, r, func(w http.ResponseWriter, r *http.Request) {
			if place == 1 {
				for k, v := range h {
					w.Header()[k] = v
				}
				w.Write([]byte("body"))
				for k, v := range tr {
					w.Header()[http.TrailerPrefix+k] = v
				}
			}
		})
		l := collected()[earlier:]
		if len(l) != 1 {
			t.Fail("%d spans", len(l))
		}
		e := l[0].serverEvent(t)
		rec = e.Request.Headers
		if place == 1 {
			rec = e.Response.Headers
			for k, v := range h {
				if fmt.Sprintf("%q", w.h[k]) != fmt.Sprintf("%q", v) {
					t.Fail("the client receives %s %q instead of %q", k, w.h[k], v)
				}
			}
		}
	default:
		resp := &http.Response{StatusCode: 200}
		if place == 2 {
			r.Header, r.Trailer = h, tr
		} else {
			resp.Header, resp.Trailer = h, tr
		}
		trans := &httptrace.Transport{Recorder: appdash.NewRecorder(hx.ID(1, 2, 3), ms), Transport: &inner{func(r *http.Request) (*http.Response, error) { return resp, nil }}}
		if _, err := trans.RoundTrip(r); err != nil {
			t.Fail("%v", err)
		}
		l := collected()[earlier:]
		if len(l) != 1 {
			t.Fail("%d spans", len(l))
		}
		e := l[0].clientEvent(t)
		rec = e.Request.Headers
		if place == 3 {
			rec = e.Response.Headers
		}
	}
	if now := c23dump(h, tr); now != before {
		t.Fail("recording changed the headers from %s to %s", before, now)
	}
	all := ""
	for _, g := range collected()[earlier:] {
		all += hx.Anns(g.anns)
	}
	for i, hh := range []http.Header{h, tr} {
		for k, vs := range hh {
			if isSecret(list, k) {
				for _, v := range vs {
					if v != "" && strings.Contains(all, v) {
						t.Fail("redacted: %q; the value %q of %q was recorded: %s", list, v, k, all)
					}
				}
				continue
			}
			name := http.CanonicalHeaderKey(k)
			if i == 1 && place == 1 {
				name = http.CanonicalHeaderKey(http.TrailerPrefix + k)
			}
			got, ok := rec[name]
			if !ok {
				t.Fail("redacted: %q; header %q is not recorded: %q", list, k, rec)
			}
			parts := strings.Split(got, ",")
			for _, v := range vs {
				found := false
				for j, p := range parts {
					if n := len(strings.Split(v, ",")); j+n <= len(parts) && strings.Join(parts[j:j+n], ",") == v {
						parts = append(parts[:j:j], parts[j+n:]...)
						found = true
						break
					}
					_ = p
				}
				if !found {
					t.Fail("redacted: %q; the value %q of %q is missing among those recorded: %q", list, v, k, got)
				}
			}
		}
	}
	mc.State(fmt.Sprint(place, list, before))
}

func c23(t *mc.T, place, max, values int) {
	list := c23redacted[t.Choose(len(c23redacted), "redacted headers")]
	h, tr := http.Header{}, http.Header{}
	n := 1 + t.Choose(max, "headers")
	for i := 0; i < n; i++ {
		name := c23names[t.Choose(len(c23names), "name")]
		to := h
		if t.Choose(2, "trailer") == 1 {
			to = tr
		}
		vs := c23values[0]
		if i == 0 {
			vs = c23values[t.Choose(values, "values")]
		}
		if _, dup := to[name]; dup {
			return
		}
		to[name] = c23mark(fmt.Sprintf("secret%d", i), vs, i)
	}
	c23send(t, place, list, h, tr)
}

func c23both(t *mc.T, place, values int) {
	list := c23redacted[t.Choose(len(c23redacted), "redacted headers")]
	pairs := [][2]string{{"X-Plain", "X-Plain"}, {"X-Plain", "x-plain"}, {"x-plain", "X-Plain"}, {"Authorization", "authorization"}, {"X-Secret", "X-Secret"}, {"x-sEcReT", "X-Secret"}}
	p := pairs[t.Choose(len(pairs), "names")]
	vs := c23values[t.Choose(values, "values of the header")]
	ws := c23values[t.Choose(values, "values of the trailer")]
	sp := t.Choose(3, "spare capacity")
	h := http.Header{p[0]: c23mark("first", vs, sp)}
	tr := http.Header{}
	if t.Choose(2, "both as headers") == 1 {
		if p[0] == p[1] {
			return
		}
		h[p[1]] = c23mark("second", ws, sp)
	} else {
		tr[p[1]] = c23mark("second", ws, sp)
	}
	c23send(t, place, list, h, tr)
}
