ID='c26-floor'; PROPERTY='C26'
NEEDS='a timed event that is not a whole number of milliseconds long, with its start late and its end early within their milliseconds'
BREAKS='the time in the profile is not the duration rounded'
EDITS=[('traceapp/prof.go', '\t\t// To match the timeline properly we use floats and round up.\n\t\tmsf := float64(ts.End().Sub(ts.Start())) / float64(time.Millisecond)\n\t\tms := int64(msf + 0.5)\n', '\t\t// Same as in the timeline: the difference of the times in milliseconds.\n\t\tms := (ts.End().UnixNano()+5e5)/int64(time.Millisecond) - (ts.Start().UnixNano()+5e5)/int64(time.Millisecond)\n')]
PKG='traceapp'
WEB=True
EXTRA=''
DEMO='package traceapp\n\nimport (\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\n\nfunc demoApp(t *testing.T, store interface {\n\tappdash.Store\n\tappdash.Queryer\n}) *App {\n\tu, _ := url.Parse("http://localhost:7700")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ta.Store, a.Queryer = store, store\n\treturn a\n}\n\nfunc demoGet(a *App, method, u, body string) (int, string) {\n\tw := httptest.NewRecorder()\n\ta.ServeHTTP(w, httptest.NewRequest(method, u, strings.NewReader(body)))\n\treturn w.Code, w.Body.String()\n}\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tid := appdash.SpanID{Trace: 1, Span: 2}\n\tt0 := time.Date(2020, 1, 1, 0, 0, 0, 400000, time.UTC)\n\trec := appdash.NewRecorder(id, ms)\n\trec.Name("n")\n\trec.Event(appdash.Timespan{S: t0, E: t0.Add(1200 * time.Microsecond)})\n\trec.Finish()\n\t_, body := demoGet(demoApp(t, ms), "GET", "/traces/0000000000000001/profile", "")\n\tif !strings.Contains(body, `"Time":1,`) {\n\t\tt.Fatal(body)\n\t}\n}\n'
