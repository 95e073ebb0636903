ID='c24-baggage-tag'; PROPERTY='C24'
NEEDS='a baggage item with the key of a tag of the span'
BREAKS='it is left out'
EDITS=[('opentracing/recorder.go', '\tfor key, val := range sp.Context.Baggage {\n', '\tfor key, val := range sp.Context.Baggage {\n\t\tif _, ok := sp.Tags[key]; ok {\n\t\t\tcontinue // the tag is more specific\n\t\t}\n')]
PKG='opentracing'
DEMO='package opentracing\n\nimport (\n\t"testing"\n\n\tbasictracer "github.com/opentracing/basictracer-go"\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tsp := basictracer.RawSpan{Context: basictracer.SpanContext{TraceID: 1, SpanID: 2, Sampled: true, Baggage: map[string]string{"k": "b"}}}\n\tsp.Tags = map[string]interface{}{"k": "t"}\n\tNewRecorder(ms, Options{}).RecordSpan(sp)\n\ttr, err := ms.Trace(1)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tn := 0\n\tfor _, a := range tr.Annotations {\n\t\tif a.Key == "k" {\n\t\t\tn++\n\t\t}\n\t}\n\tif n != 2 {\n\t\tt.Fatal(tr.Annotations)\n\t}\n}\n'
