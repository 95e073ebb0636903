ID='c35-upload-not-aged'; PROPERTY='C35'
NEEDS='a trace that is uploaded to a server with --delete-after'
BREAKS='it is never deleted'
EDITS=[('cmd/appdash/serve_cmd.go', '\tapp.Store = Store\n\tapp.Queryer = Queryer\n', '\tapp.Store, app.Queryer = memStore, Queryer\n')]
PKG='cmd/appdash'
WEB=True
DEMO='package main\n\nimport (\n\t"io/ioutil"\n\t"net"\n\t"net/http"\n\t"strings"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tc := &ServeCmd{HTTPAddr: "127.0.0.1:39419", CollectorAddr: "127.0.0.1:39420", DeleteAfter: 100 * time.Millisecond}\n\tgo c.Execute(nil)\n\tfor i := 0; i < 200; i++ {\n\t\tif conn, err := net.Dial("tcp", c.HTTPAddr); err == nil {\n\t\t\tconn.Close()\n\t\t\tbreak\n\t\t}\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n\tif _, err := http.Post("http://"+c.HTTPAddr+"/traces/upload", "", strings.NewReader(`[{"ID":{"Trace":"00000000000000ab","Span":"0000000000000001","Parent":"0000000000000000"}}]`)); err != nil {\n\t\tt.Fatal(err)\n\t}\n\trc := appdash.NewRemoteCollector(c.CollectorAddr)\n\tfor i := 1; i < 10; i++ {\n\t\ttime.Sleep(100 * time.Millisecond)\n\t\trc.Collect(appdash.SpanID{Trace: 1, Span: appdash.ID(i)})\n\t}\n\ttime.Sleep(200 * time.Millisecond)\n\tr, err := http.Get("http://" + c.HTTPAddr + "/traces/00000000000000ab")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tb, _ := ioutil.ReadAll(r.Body)\n\tif r.StatusCode == 200 {\n\t\tt.Fatalf("still there: %.100s", b)\n\t}\n}\n'
