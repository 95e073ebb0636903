ID='c36-header-added'; PROPERTY='C36'
NEEDS='a handler that passes on the headers it got with the requests it makes'
BREAKS='the request it makes is taken for part of the span of the request it got'
EDITS=[('httptrace/client.go', '\tSetSpanIDHeader(req.Header, span)\n', '\treq.Header[spanIDKey] = append(req.Header[spanIDKey], span.String())\n'), ('httptrace/client.go', '// Transport is an HTTP transport', 'var spanIDKey = http.CanonicalHeaderKey(HeaderSpanID)\n\n// Transport is an HTTP transport')]
PKG='httptrace'
DEMO='package httptrace\n\nimport (\n\t"net/http"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\ntype demoRT struct{ got *appdash.SpanID }\n\nfunc (d *demoRT) RoundTrip(r *http.Request) (*http.Response, error) {\n\td.got, _ = GetSpanID(r.Header)\n\treturn &http.Response{StatusCode: 200}, nil\n}\n\nfunc TestDemo(t *testing.T) {\n\td := &demoRT{}\n\tid := appdash.NewRootSpanID()\n\ttr := &Transport{Recorder: appdash.NewRecorder(id, appdash.NewMemoryStore()), Transport: d}\n\tr, _ := http.NewRequest("GET", "http://x/", nil)\n\tSetSpanIDHeader(r.Header, id)\n\ttr.RoundTrip(r)\n\tif d.got.Parent != id.Span {\n\t\tt.Fatal(d.got)\n\t}\n}\n'
