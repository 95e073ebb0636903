ID='c07-collect-err'; PROPERTY='C07'
NEEDS='the underlying store refuses the first span of a trace, which is collected again later, and the ring comes round'
BREAKS='more recent traces are deleted, or more than Max remain, because a trace has two places in the ring'
EDITS=[('store.go', '\treturn ls.DeleteStore.Collect(id, anns...)\n}\n', '\terr := ls.DeleteStore.Collect(id, anns...)\n\tif err != nil {\n\t\t// Nothing of the trace was stored.\n\t\tdelete(ls.traces, id.Trace)\n\t}\n\treturn err\n}\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"errors"\n\t"testing"\n)\n\ntype demoStore struct {\n\tDeleteStore\n\tfail bool\n}\n\nfunc (s *demoStore) Collect(id SpanID, as ...Annotation) error {\n\tif s.fail {\n\t\treturn errors.New("full")\n\t}\n\treturn s.DeleteStore.Collect(id, as...)\n}\n\nfunc TestDemo(t *testing.T) {\n\tms := NewMemoryStore()\n\ts := &demoStore{DeleteStore: ms}\n\tls := &LimitStore{Max: 3, DeleteStore: s}\n\ts.fail = true\n\tls.Collect(SpanID{1, 1, 0})\n\ts.fail = false\n\tfor _, id := range []ID{1, 2, 3} {\n\t\tif err := ls.Collect(SpanID{id, 1, 0}); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\t// Three traces were collected at any time: all are there.\n\tfor _, id := range []ID{1, 2, 3} {\n\t\tif _, err := ms.Trace(id); err != nil {\n\t\t\tt.Fatal(id, err)\n\t\t}\n\t}\n}\n'
