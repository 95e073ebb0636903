ID='c22-left-in-flight'; PROPERTY='C22'
NEEDS='a request that failed, and a CancelRequest for it afterwards'
BREAKS='the cancellation of a request that is over reaches the inner transport'
EDITS=[('httptrace/client.go', '\tdefer t.setCloneRequest(original, nil)\n\n', ''), ('httptrace/client.go', '\tif err == nil {\n\t\te.Response = responseInfo(resp)\n\t} else {', '\tif err == nil {\n\t\tt.setCloneRequest(original, nil)\n\t\te.Response = responseInfo(resp)\n\t} else {')]
PKG='httptrace'
DEMO='package httptrace\n\nimport (\n\t"errors"\n\t"net/http"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\ntype demoRT struct{ cancelled int }\n\nfunc (d *demoRT) RoundTrip(*http.Request) (*http.Response, error) { return nil, errors.New("x") }\nfunc (d *demoRT) CancelRequest(*http.Request)                     { d.cancelled++ }\n\nfunc TestDemo(t *testing.T) {\n\td := &demoRT{}\n\ttr := &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), appdash.NewMemoryStore()), Transport: d}\n\tr, _ := http.NewRequest("GET", "http://x/", nil)\n\ttr.RoundTrip(r)\n\ttr.CancelRequest(r)\n\tif d.cancelled != 0 {\n\t\tt.Fatal("cancelled a request that was not in flight")\n\t}\n}\n'
