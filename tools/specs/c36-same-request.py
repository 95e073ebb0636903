ID='c36-same-request'; PROPERTY='C36'
NEEDS='one http.Request that is sent twice through one Transport'
BREAKS='both calls get one span ID: the spans of the two servings are merged'
EDITS=[('httptrace/client.go', '\tspan := appdash.NewSpanID(t.Recorder.SpanID)\n', '\tspan := t.spanOf(original)\n'), ('httptrace/client.go', '\trequests map[*http.Request]*http.Request\n', '\trequests map[*http.Request]*http.Request\n\n\t// last is the last request and its span, which it keeps if it is tried again.\n\tlast     *http.Request\n\tlastSpan appdash.SpanID\n'), ('httptrace/client.go', '// getTransport returns custom', '// spanOf returns the span of a request.\nfunc (t *Transport) spanOf(r *http.Request) appdash.SpanID {\n\tt.reqMu.Lock()\n\tdefer t.reqMu.Unlock()\n\tif t.last != r {\n\t\tt.last, t.lastSpan = r, appdash.NewSpanID(t.Recorder.SpanID)\n\t}\n\treturn t.lastSpan\n}\n\n// getTransport returns custom')]
PKG='httptrace'
DEMO='package httptrace\n\nimport (\n\t"net/http"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\ntype demoRT struct{ got []appdash.SpanID }\n\nfunc (d *demoRT) RoundTrip(r *http.Request) (*http.Response, error) {\n\tid, _ := GetSpanID(r.Header)\n\td.got = append(d.got, *id)\n\treturn &http.Response{StatusCode: 200}, nil\n}\n\nfunc TestDemo(t *testing.T) {\n\td := &demoRT{}\n\ttr := &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), appdash.NewMemoryStore()), Transport: d}\n\tr, _ := http.NewRequest("GET", "http://x/", nil)\n\ttr.RoundTrip(r)\n\ttr.RoundTrip(r)\n\tif d.got[0] == d.got[1] {\n\t\tt.Fatal(d.got)\n\t}\n}\n'
