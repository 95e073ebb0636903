ID='c31-page-cache'; PROPERTY='C31'
NEEDS='a trace page that is looked at again after a span below the second level (or an annotation of a sub-span) was collected'
BREAKS='the JSON form of the trace on the page is the old one'
EDITS=[('traceapp/app.go', '\tjsonTrace, err := json.MarshalIndent([]*appdash.Trace{trace}, "", "  ")\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tkey := fmt.Sprintf("%v %d %d", trace.ID, len(trace.Annotations), len(trace.Sub))\n\ta.tmplLock.Lock()\n\tjsonTrace, ok := a.jsonTraces[key]\n\ta.tmplLock.Unlock()\n\tif !ok {\n\t\tif jsonTrace, err = json.MarshalIndent([]*appdash.Trace{trace}, "", "  "); err != nil {\n\t\t\treturn err\n\t\t}\n\t\ta.tmplLock.Lock()\n\t\tif a.jsonTraces == nil {\n\t\t\ta.jsonTraces = map[string][]byte{}\n\t\t}\n\t\ta.jsonTraces[key] = jsonTrace\n\t\ta.tmplLock.Unlock()\n\t}\n'), ('traceapp/app.go', '\ttmpls    map[string]*htmpl.Template\n', '\ttmpls    map[string]*htmpl.Template\n\n\tjsonTraces map[string][]byte // exported forms of traces, as they take long to make\n')]
PKG='traceapp'
WEB=True
DEMO='package traceapp\n\nimport (\n\t"io/ioutil"\n\t"net/http"\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\nvar _ = http.StatusOK\n\nfunc demoApp(t *testing.T) (*App, *appdash.MemoryStore, func(method, path, body string) string) {\n\tu, _ := url.Parse("http://x/")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tms := appdash.NewMemoryStore()\n\ta.Store, a.Queryer = ms, ms\n\treturn a, ms, func(method, path, body string) string {\n\t\tw := httptest.NewRecorder()\n\t\tr := httptest.NewRequest(method, path, strings.NewReader(body))\n\t\ta.ServeHTTP(w, r)\n\t\tb, _ := ioutil.ReadAll(w.Body)\n\t\treturn string(b)\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\t_, ms, get := demoApp(t)\n\tms.Collect(appdash.SpanID{1, 1, 0}, appdash.Annotation{Key: "Name", Value: []byte("root")})\n\tms.Collect(appdash.SpanID{1, 2, 1}, appdash.Annotation{Key: "Name", Value: []byte("sub")})\n\tp := get("GET", "/traces/0000000000000001", "")\n\tif !strings.Contains(p, "0000000000000002") {\n\t\tt.Fatal(p)\n\t}\n\tms.Collect(appdash.SpanID{1, 2, 1}, appdash.Annotation{Key: "later.key", Value: []byte("x")})\n\tif p := get("GET", "/traces/0000000000000001", ""); strings.Count(p, "later.key") < 2 {\n\t\tt.Fatal("not shown")\n\t}\n}\n'
