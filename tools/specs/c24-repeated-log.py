ID='c24-repeated-log'; PROPERTY='C24'
NEEDS='two log entries of a span with the same time and text'
BREAKS='the second one is not recorded'
EDITS=[('opentracing/recorder.go', '\tfor _, log := range sp.Logs {\n\t\tif logs', '\ttype entry struct {\n\t\ttext string\n\t\tat   int64\n\t}\n\tseen := make(map[entry]bool)\n\tfor _, log := range sp.Logs {\n\t\tif logs'), ('opentracing/recorder.go', '\t\t\tr.logError(spanID, err)\n\t\t} else {\n\t\t\tr.collectEvent(', '\t\t\tr.logError(spanID, err)\n\t\t} else if e := (entry{string(logs), log.Timestamp.Unix()}); !seen[e] {\n\t\t\tseen[e] = true\n\t\t\tr.collectEvent(')]
PKG='opentracing'
DEMO='package opentracing\n\nimport (\n\t"testing"\n\t"time"\n\n\tbasictracer "github.com/opentracing/basictracer-go"\n\tot "github.com/opentracing/opentracing-go"\n\totlog "github.com/opentracing/opentracing-go/log"\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tms := appdash.NewMemoryStore()\n\tr := NewRecorder(ms, Options{})\n\tat := time.Unix(1000, 0)\n\tlogs := []ot.LogRecord{\n\t\t{Timestamp: at, Fields: []otlog.Field{otlog.String("event", "a")}},\n\t\t{Timestamp: at.Add(time.Millisecond), Fields: []otlog.Field{otlog.String("event", "a")}},\n\t}\n\tr.RecordSpan(basictracer.RawSpan{Context: basictracer.SpanContext{TraceID: 1, SpanID: 2, Sampled: true}, Operation: "x", Start: at, Logs: logs})\n\ttr, err := ms.Trace(1)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tn := 0\n\tfor _, a := range tr.Annotations {\n\t\tif a.Key == "Msg" {\n\t\t\tn++\n\t\t}\n\t}\n\tif n != 2 {\n\t\tt.Fatal(n, tr)\n\t}\n}\n'
