ID='c06-collect-err'; PROPERTY='C06'
NEEDS='the underlying store refuses one span of a trace of which it has others'
BREAKS='a trace whose age is forgotten when a span of it could not be stored: what is stored of it is never evicted, or evicted late'
EDITS=[('store.go', '\treturn rs.DeleteStore.Collect(id, anns...)\n', '\terr := rs.DeleteStore.Collect(id, anns...)\n\tif err != nil {\n\t\t// Nothing was stored.\n\t\tdelete(rs.created, id.Trace)\n\t}\n\treturn err\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"errors"\n\t"testing"\n\t"time"\n)\n\ntype demoStore struct {\n\tDeleteStore\n\tfail bool\n}\n\nfunc (s *demoStore) Collect(id SpanID, as ...Annotation) error {\n\tif s.fail {\n\t\treturn errors.New("full")\n\t}\n\treturn s.DeleteStore.Collect(id, as...)\n}\n\nfunc TestDemo(t *testing.T) {\n\tms := NewMemoryStore()\n\ts := &demoStore{DeleteStore: ms}\n\trs := &RecentStore{MinEvictAge: 50 * time.Millisecond, DeleteStore: s}\n\trs.Collect(SpanID{1, 1, 0})\n\ts.fail = true\n\trs.Collect(SpanID{1, 2, 1})\n\ts.fail = false\n\tfor i := 0; i < 3; i++ {\n\t\ttime.Sleep(120 * time.Millisecond)\n\t\trs.Collect(SpanID{2, ID(i) + 1, 0})\n\t}\n\tif _, err := ms.Trace(1); err != ErrTraceNotFound {\n\t\tt.Fatal("trace 1 is still there")\n\t}\n}\n'
