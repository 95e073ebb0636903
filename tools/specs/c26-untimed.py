ID='c26-untimed'; PROPERTY='C26'
NEEDS='a span without times whose name no timed span has, in the view that aggregates spans'
BREAKS='the span is missing from the aggregation'
EDITS=[('traceapp/aggregate.go', '\t\t\tfor _, spanProf := range profiles[1:] {\n\t\t\t\tup(spanProf.Name, spanProf.Time)\n\t\t\t}\n', '\t\t\tfor _, spanProf := range profiles[1:] {\n\t\t\t\tif spanProf.TimeCum == 0 {\n\t\t\t\t\tcontinue // nothing below it either\n\t\t\t\t}\n\t\t\t\tup(spanProf.Name, spanProf.Time)\n\t\t\t}\n')]
PKG='traceapp'
WEB=True
EXTRA=''
DEMO='package traceapp\n\nimport (\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\n\nfunc demoApp(t *testing.T, store interface {\n\tappdash.Store\n\tappdash.Queryer\n}) *App {\n\tu, _ := url.Parse("http://localhost:7700")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ta.Store, a.Queryer = store, store\n\treturn a\n}\n\nfunc demoGet(a *App, method, u, body string) (int, string) {\n\tw := httptest.NewRecorder()\n\ta.ServeHTTP(w, httptest.NewRequest(method, u, strings.NewReader(body)))\n\treturn w.Code, w.Body.String()\n}\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tappdash.NewRecorder(appdash.SpanID{Trace: 1, Span: 2}, ms).Name("r")\n\tms.Collect(appdash.SpanID{Trace: 1, Span: 2}, appdash.Annotation{Key: "Name", Value: []byte("r")})\n\tms.Collect(appdash.SpanID{Trace: 1, Span: 3, Parent: 2}, appdash.Annotation{Key: "Name", Value: []byte("quick")})\n\t_, body := demoGet(demoApp(t, ms), "GET", "/aggregate?view-mode=span-only", "")\n\tif !strings.Contains(body, "quick") {\n\t\tt.Fatal(body)\n\t}\n}\n'
