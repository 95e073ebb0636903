ID='c38-client-once'; PROPERTY='C38'
NEEDS='a second visit of the page that makes API calls, or two at the same time'
BREAKS='the spans of its API calls are put into the trace of the first visit'
EDITS=[('cmd/appdash/example_app.go', '\t\thttpClient := &http.Client{\n\t\t\tTransport: &httptrace.Transport{Recorder: appdash.NewRecorder(span, a.collector), SetName: true},\n\t\t}\n', '\t\ta.once.Do(func() {\n\t\t\ta.client = &http.Client{\n\t\t\t\tTransport: &httptrace.Transport{Recorder: appdash.NewRecorder(span, a.collector), SetName: true},\n\t\t\t}\n\t\t})\n\t\thttpClient := a.client\n'), ('cmd/appdash/example_app.go', '\tappdashURL *url.URL\n}\n', '\tappdashURL *url.URL\n\n\tonce   sync.Once\n\tclient *http.Client // keeps its connections from request to request\n}\n'), ('cmd/appdash/example_app.go', '\t"net/url"\n', '\t"net/url"\n\t"sync"\n')]
PKG='cmd/appdash'
WEB=True
DEMO='package main\n\nimport (\n\t"net/http"\n\t"net/http/httptest"\n\t"net/url"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n\t"sourcegraph.com/sourcegraph/appdash/httptrace"\n)\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tapp := &demoApp{collector: ms}\n\ts := httptest.NewServer(&middlewareHandler{middleware: httptrace.Middleware(ms, &httptrace.MiddlewareConfig{}), next: app})\n\tdefer s.Close()\n\tapp.baseURL, _ = url.Parse(s.URL)\n\tapp.appdashURL = app.baseURL\n\tfor i := 0; i < 2; i++ {\n\t\tr, err := http.Get(s.URL + "/api-calls")\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tr.Body.Close()\n\t}\n\tl, _ := ms.Traces(appdash.TracesOpts{})\n\tif len(l) != 2 {\n\t\tt.Fatal(len(l), "traces")\n\t}\n\tfor _, tr := range l {\n\t\tif len(tr.Sub) != 3 && len(tr.Sub) != 6 {\n\t\t\tt.Fatal(tr.TreeString())\n\t\t}\n\t}\n\tif len(l[0].Sub) != len(l[1].Sub) {\n\t\tt.Fatal(l[0].TreeString(), l[1].TreeString())\n\t}\n}\n'
