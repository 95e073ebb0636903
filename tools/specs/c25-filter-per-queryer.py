ID='c25-filter-per-queryer'; PROPERTY='C25'
NEEDS='a listing of some trace IDs from several queryers one of which has all of them'
BREAKS='the listing leaves out traces: a queryer that has none of the IDs that are still missing is asked for all of its traces'
EDITS=[('multi.go', '\tfor _, q := range mq.queryers {\n', '\tfor i, q := range mq.queryers {\n\t\tif i > 0 && len(opts.TraceIDs) > 0 {\n\t\t\t// Ask the others only for what has not been found yet.\n\t\t\tvar rest []ID\n\t\t\tfor _, id := range opts.TraceIDs {\n\t\t\t\tif _, ok := union[id]; !ok {\n\t\t\t\t\trest = append(rest, id)\n\t\t\t\t}\n\t\t\t}\n\t\t\topts.TraceIDs = rest\n\t\t}\n')]
DEMO='package appdash\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\ta, b := NewMemoryStore(), NewMemoryStore()\n\ta.Collect(SpanID{1, 1, 0})\n\tb.Collect(SpanID{2, 2, 0})\n\tts, err := MultiQueryer(a, b).Traces(TracesOpts{TraceIDs: []ID{1}})\n\tif err != nil || len(ts) != 1 {\n\t\tt.Fatal(ts, err)\n\t}\n}\n'
