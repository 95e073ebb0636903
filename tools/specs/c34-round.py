ID='c34-round'; PROPERTY='C34'
NEEDS='a span with a timed event that begins and ends within milliseconds of whose fractions the sum exceeds one'
BREAKS='the end of the item lies up to a millisecond before the end of the event'
EDITS=[('traceapp/vis.go', '\t\t\tend := e.End().UnixNano() / int64(time.Millisecond)\n', '\t\t\tend := start + int64(e.End().Sub(e.Start())/time.Millisecond)\n')]
PKG='traceapp'
WEB=True
DEMO='package traceapp\n\nimport (\n\t"net/url"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\ntype demoEv struct{ S, E time.Time }\n\nfunc (demoEv) Schema() string     { return "demots" }\nfunc (e demoEv) Start() time.Time { return e.S }\nfunc (e demoEv) End() time.Time   { return e.E }\n\nfunc TestDemo(t *testing.T) {\n\tappdash.RegisterEvent(demoEv{})\n\tu, _ := url.Parse("http://x/")\n\ta, err := New(nil, u)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tb := time.Unix(1000, 0)\n\tas, err := appdash.MarshalEvent(demoEv{b.Add(600 * time.Microsecond), b.Add(2400 * time.Microsecond)})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tas = append(as, appdash.Annotation{Key: "Name", Value: []byte("n")})\n\titems, err := a.d3timeline(&appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{1, 1, 0}, Annotations: as}})\n\tif err != nil || len(items) != 1 {\n\t\tt.Fatal(items, err)\n\t}\n\tif e := items[0].Times[0].End; e != 1000002 {\n\t\tt.Fatal(e)\n\t}\n}\n'
