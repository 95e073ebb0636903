ID='c27-trailing'; PROPERTY='C27'
NEEDS='an upload with something else after the traces'
BREAKS='the traces in it are stored and the upload is answered with success'
EDITS=[('traceapp/app.go', '\tdata, err := ioutil.ReadAll(r.Body)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\t// Unmarshal the trace.\n\tvar traces []*appdash.Trace\n\terr = json.Unmarshal(data, &traces)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\n\t// Unmarshal the trace.\n\tvar traces []*appdash.Trace\n\terr := json.NewDecoder(r.Body).Decode(&traces)\n\tif err != nil {\n\t\treturn err\n\t}\n')]
PKG='traceapp'
WEB=True
DEMO='package traceapp\n\nimport (\n\t"net/http/httptest"\n\t"net/url"\n\t"strings"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tu, _ := url.Parse("http://localhost:7700")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\ta.Store, a.Queryer = ms, ms\n\tw := httptest.NewRecorder()\n\tone := `{"ID":{"Trace":"00000000000000ab","Span":"0000000000000001","Parent":"0000000000000000"}}`\n\ta.ServeHTTP(w, httptest.NewRequest("POST", "/traces/upload", strings.NewReader("["+one+"]"+one)))\n\tif w.Code == 200 {\n\t\tt.Fatal("accepted")\n\t}\n}\n'
