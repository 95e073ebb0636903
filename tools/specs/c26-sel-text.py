ID='c26-sel-text'; PROPERTY='C26'
NEEDS='a selection that gives an ID in upper case or without its leading zeros'
BREAKS='the trace is left out'
EDITS=[('traceapp/app.go', '\t\t\tvar id appdash.ID\n\t\t\tif id, err = appdash.ParseID(idStr); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tfor _, t := range traces {\n\t\t\t\tif t.Span.ID.Trace == id {\n', '\t\t\tif _, err = appdash.ParseID(idStr); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tfor _, t := range traces {\n\t\t\t\tif t.Span.ID.Trace.String() == idStr {\n')]
PKG='traceapp'
WEB=True
DEMO='package traceapp\n\nimport (\n\t"io/ioutil"\n\t"net/http"\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\nvar _ = http.StatusOK\n\nfunc demoApp(t *testing.T) (*App, *appdash.MemoryStore, func(method, path, body string) string) {\n\tu, _ := url.Parse("http://x/")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tms := appdash.NewMemoryStore()\n\ta.Store, a.Queryer = ms, ms\n\treturn a, ms, func(method, path, body string) string {\n\t\tw := httptest.NewRecorder()\n\t\tr := httptest.NewRequest(method, path, strings.NewReader(body))\n\t\ta.ServeHTTP(w, r)\n\t\tb, _ := ioutil.ReadAll(w.Body)\n\t\treturn string(b)\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\t_, ms, get := demoApp(t)\n\tms.Collect(appdash.SpanID{0xab, 1, 0}, appdash.Annotation{Key: "Name", Value: []byte("therootspan")})\n\tfor _, s := range []string{"00000000000000ab", "ab", "AB"} {\n\t\tif p := get("GET", "/aggregate?selection="+s, ""); !strings.Contains(p, "therootspan") {\n\t\t\tt.Fatal(s)\n\t\t}\n\t}\n}\n'
