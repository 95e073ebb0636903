ID='c35-sample-memstore'; PROPERTY='C35'
NEEDS='sample data together with --delete-after, and a server that runs longer than that'
BREAKS='the sample traces are never deleted'
EDITS=[('cmd/appdash/serve_cmd.go', '\t\tsampleData(Store)\n', '\t\tsampleData(memStore)\n')]
PKG='cmd/appdash'
WEB=True
DEMO='package main\n\nimport (\n\t"io/ioutil"\n\t"net"\n\t"net/http"\n\t"strings"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tc := &ServeCmd{HTTPAddr: "127.0.0.1:39421", CollectorAddr: "127.0.0.1:39422", DeleteAfter: 100 * time.Millisecond, SampleData: true}\n\tgo c.Execute(nil)\n\tfor i := 0; i < 200; i++ {\n\t\tif conn, err := net.Dial("tcp", c.HTTPAddr); err == nil {\n\t\t\tconn.Close()\n\t\t\tbreak\n\t\t}\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n\trc := appdash.NewRemoteCollector(c.CollectorAddr)\n\tfor i := 1; i < 10; i++ {\n\t\ttime.Sleep(100 * time.Millisecond)\n\t\trc.Collect(appdash.SpanID{Trace: 1, Span: appdash.ID(i)})\n\t}\n\ttime.Sleep(200 * time.Millisecond)\n\tr, err := http.Get("http://" + c.HTTPAddr + "/traces")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tb, _ := ioutil.ReadAll(r.Body)\n\tif n := strings.Count(string(b), "fakeTag"); n > 0 {\n\t\tt.Fatalf("%d events of the sample data are left", n)\n\t}\n\tn := 0\n\tfor _, h := range fakeHosts {\n\t\tn += strings.Count(string(b), h)\n\t}\n\tif n > 0 {\n\t\tt.Fatalf("%d sample traces are left", n)\n\t}\n}\n'
