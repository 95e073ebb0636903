ID='c27-bare'; PROPERTY='C27'
NEEDS='the import of a trace that has a span without annotations'
BREAKS='the span is missing in the imported trace, and the spans below it hang elsewhere'
EDITS=[('traceapp/trace.go', '\terr := c.Collect(t.ID, t.Annotations...)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tvar err error\n\tif len(t.Annotations) > 0 {\n\t\terr = c.Collect(t.ID, t.Annotations...)\n\t}\n\tif err != nil {\n\t\treturn err\n\t}\n')]
PKG='traceapp'
WEB=True
DEMO='package traceapp\n\nimport (\n\t"io/ioutil"\n\t"net/http"\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nvar _ = strings.Contains\nvar _ = http.StatusOK\n\nfunc demoApp(t *testing.T) (*App, *appdash.MemoryStore, func(method, path, body string) string) {\n\tu, _ := url.Parse("http://x/")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tms := appdash.NewMemoryStore()\n\ta.Store, a.Queryer = ms, ms\n\treturn a, ms, func(method, path, body string) string {\n\t\tw := httptest.NewRecorder()\n\t\tr := httptest.NewRequest(method, path, strings.NewReader(body))\n\t\ta.ServeHTTP(w, r)\n\t\tb, _ := ioutil.ReadAll(w.Body)\n\t\treturn string(b)\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\t_, ms, get := demoApp(t)\n\tget("POST", "/traces/upload", `[{"ID":{"Trace":"01","Span":"01","Parent":"00"},"Annotations":[{"Key":"a","Value":""}],"Sub":[{"ID":{"Trace":"01","Span":"02","Parent":"01"}}]}]`)\n\ttr, err := ms.Trace(1)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif tr.FindSpan(2) == nil {\n\t\tt.Fatal(tr.TreeString())\n\t}\n}\n'
