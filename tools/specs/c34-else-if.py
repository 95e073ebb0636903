ID='c34-else-if'; PROPERTY='C34'
NEEDS='a span that is not the root, with a timed event that begins before and ends after an earlier one of its events'
BREAKS='its end on the timeline is too early'
EDITS=[('traceapp/vis.go', '\t\t\t\t\tif item.Times[0].Start > start {\n\t\t\t\t\t\titem.Times[0].Start = start\n\t\t\t\t\t}\n\t\t\t\t\tif item.Times[0].End < end {\n\t\t\t\t\t\titem.Times[0].End = end\n\t\t\t\t\t}\n', '\t\t\t\t\tif t := item.Times[0]; start < t.Start {\n\t\t\t\t\t\tt.Start = start\n\t\t\t\t\t} else if end > t.End {\n\t\t\t\t\t\tt.End = end\n\t\t\t\t\t}\n')]
PKG='traceapp'
WEB=True
EXTRA=''
DEMO='package traceapp\n\nimport (\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash/sqltrace"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\n\nfunc demoApp(t *testing.T, store interface {\n\tappdash.Store\n\tappdash.Queryer\n}) *App {\n\tu, _ := url.Parse("http://localhost:7700")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ta.Store, a.Queryer = store, store\n\treturn a\n}\n\nfunc demoGet(a *App, method, u, body string) (int, string) {\n\tw := httptest.NewRecorder()\n\ta.ServeHTTP(w, httptest.NewRequest(method, u, strings.NewReader(body)))\n\treturn w.Code, w.Body.String()\n}\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tt0 := time.Unix(1000, 0).UTC()\n\trec := appdash.NewRecorder(appdash.SpanID{Trace: 1, Span: 2}, ms)\n\trec.Name("r")\n\trec.Event(appdash.Timespan{S: t0, E: t0.Add(time.Second)})\n\trec.Finish()\n\trec = appdash.NewRecorder(appdash.SpanID{Trace: 1, Span: 3, Parent: 2}, ms)\n\trec.Name("c")\n\trec.Event(sqltrace.SQLEvent{ClientSend: t0.Add(2 * time.Second), ClientRecv: t0.Add(3 * time.Second)})\n\trec.Event(appdash.Timespan{S: t0.Add(time.Second), E: t0.Add(4 * time.Second)})\n\trec.Finish()\n\ttr, _ := ms.Trace(1)\n\titems, err := demoApp(t, ms).d3timeline(tr)\n\tif err != nil || len(items) != 2 || items[1].Times[0].Start != 1001000 || items[1].Times[0].End != 1004000 {\n\t\tt.Fatal(err, items, items[1].Times[0])\n\t}\n}\n'
