ID='c31-unlock-early'; PROPERTY='C31'
NEEDS='two pages rendered at the same time'
BREAKS='a data race: a page is looked up while the templates are parsed anew, and may not be found'
EDITS=[('traceapp/tmpl.go', '\ta.tmplLock.Lock()\n\tdefer a.tmplLock.Unlock()\n\n\tif a.tmpls == nil || ReloadTemplates {\n\t\tif err := a.parseHTMLTemplates(templates); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n', '\ta.tmplLock.Lock()\n\tif a.tmpls == nil || ReloadTemplates {\n\t\tif err := a.parseHTMLTemplates(templates); err != nil {\n\t\t\ta.tmplLock.Unlock()\n\t\t\treturn err\n\t\t}\n\t}\n\ta.tmplLock.Unlock() // rendering can take long\n')]
PKG='traceapp'
WEB=True
EXTRA='-race'
DEMO='package traceapp\n\nimport (\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\t"sync"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\n\nfunc demoApp(t *testing.T, store interface {\n\tappdash.Store\n\tappdash.Queryer\n}) *App {\n\tu, _ := url.Parse("http://localhost:7700")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ta.Store, a.Queryer = store, store\n\treturn a\n}\n\nfunc demoGet(a *App, method, u, body string) (int, string) {\n\tw := httptest.NewRecorder()\n\ta.ServeHTTP(w, httptest.NewRequest(method, u, strings.NewReader(body)))\n\treturn w.Code, w.Body.String()\n}\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\ta := demoApp(t, ms)\n\tms.Collect(appdash.SpanID{Trace: 1, Span: 2}, appdash.Annotation{Key: "Name", Value: []byte("r")})\n\tvar wg sync.WaitGroup\n\tfor i := 0; i < 8; i++ {\n\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tfor i := 0; i < 20; i++ {\n\t\t\t\tif c, body := demoGet(a, "GET", "/traces", ""); c != 200 {\n\t\t\t\t\tt.Error(c, body)\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t}\n\twg.Wait()\n}\n'
