ID='c31-ids-accumulate'; PROPERTY='C31'
NEEDS='a dashboard with several rows'
BREAKS='the URL of a row leads to the traces of the rows before it as well'
EDITS=[('traceapp/dashboard.go', '\tfor i, r := range results {\n\t\tvar stringIDs []string\n', '\tvar stringIDs []string\n\tfor i, r := range results {\n')]
PKG='traceapp'
WEB=True
EXTRA=''
DEMO='package traceapp\n\nimport (\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\n\nfunc demoApp(t *testing.T, store interface {\n\tappdash.Store\n\tappdash.Queryer\n}) *App {\n\tu, _ := url.Parse("http://localhost:7700")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ta.Store, a.Queryer = store, store\n\treturn a\n}\n\nfunc demoGet(a *App, method, u, body string) (int, string) {\n\tw := httptest.NewRecorder()\n\ta.ServeHTTP(w, httptest.NewRequest(method, u, strings.NewReader(body)))\n\treturn w.Code, w.Body.String()\n}\n\ntype demoAgg struct{}\n\nfunc (demoAgg) Aggregate(_, _ time.Duration) ([]*appdash.AggregatedResult, error) {\n\treturn []*appdash.AggregatedResult{{RootSpanName: "a", Slowest: []appdash.ID{1}}, {RootSpanName: "b", Slowest: []appdash.ID{2}}}, nil\n}\n\nfunc TestDemo(t *testing.T) {\n\ta := demoApp(t, appdash.NewMemoryStore())\n\ta.Aggregator = demoAgg{}\n\t_, body := demoGet(a, "GET", "/dashboard/data", "")\n\tif !strings.Contains(body, "show=0000000000000002") {\n\t\tt.Fatal(body)\n\t}\n}\n'
