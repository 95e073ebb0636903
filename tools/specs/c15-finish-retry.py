ID='c15-finish-retry'; PROPERTY='C15'
NEEDS='a collector that fails when the span is finished, and a second Finish'
BREAKS='the data of the span is collected twice and no error of the second Finish is reported'
EDITS=[('recorder.go', '\tr.finished = true\n\tr.Annotation(r.annotations...)\n', '\tif err := r.failsafeAnnotation(r.annotations...); err != nil {\n\t\tr.error("Annotation", err)\n\t\treturn // may be tried again\n\t}\n\tr.finished = true\n')]
DEMO='package appdash\n\nimport (\n\t"errors"\n\t"testing"\n)\n\ntype demoColl struct{ n int }\n\nfunc (c *demoColl) Collect(_ SpanID, as ...Annotation) error {\n\tfor _, a := range as {\n\t\tif a.Key == "Name" {\n\t\t\tc.n++\n\t\t}\n\t}\n\treturn errors.New("fails")\n}\n\nfunc TestDemo(t *testing.T) {\n\tc := &demoColl{}\n\tr := NewRecorder(NewRootSpanID(), c)\n\tr.Name("a")\n\tr.Finish()\n\tr.Finish()\n\tif c.n != 1 {\n\t\tt.Fatalf("collected %d times", c.n)\n\t}\n}\n'
