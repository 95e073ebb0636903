ID='c30-deep'; PROPERTY='C30'
NEEDS='a trace of more than a hundred levels'
BREAKS='FindSpan does not find spans that lie deep'
EDITS=[('trace.go', '\tfor _, sub := range t.Sub {\n\t\tif s := sub.FindSpan(spanID); s != nil {\n\t\t\treturn s\n\t\t}\n\t}\n\treturn nil\n}\n', '\treturn t.findBelow(spanID, 0)\n}\n\n// findBelow looks for the span among the descendants of t, which lies at the\n// given depth. It does not follow a tree that is so deep that it must be cyclic.\nfunc (t *Trace) findBelow(spanID ID, depth int) *Trace {\n\tif depth == 100 {\n\t\treturn nil\n\t}\n\tfor _, sub := range t.Sub {\n\t\tif sub.ID.Span == spanID {\n\t\t\treturn sub\n\t\t}\n\t\tif s := sub.findBelow(spanID, depth+1); s != nil {\n\t\t\treturn s\n\t\t}\n\t}\n\treturn nil\n}\n')]
PKG='.'
DEMO='package appdash\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tms := NewMemoryStore()\n\tfor i := ID(1); i <= 150; i++ {\n\t\tms.Collect(SpanID{1, i, i - 1})\n\t}\n\ttr, err := ms.Trace(1)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif tr.FindSpan(150) == nil {\n\t\tt.Fatal("span 150 is not found")\n\t}\n}\n'
