ID='c03-delete-stepwise'; PROPERTY='C03'
NEEDS='a Delete of several traces at the same time as a query'
BREAKS='the query sees some of the traces without the others'
EDITS=[('store.go', '\tms.Lock()\n\tdefer ms.Unlock()\n\treturn ms.deleteNoLock(traces...)\n}\n', '\tfor _, id := range traces {\n\t\tms.Lock()\n\t\terr := ms.deleteNoLock(id)\n\t\tms.Unlock()\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\treturn nil\n}\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"runtime"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tfor i := 0; i < 40; i++ {\n\t\tms := NewMemoryStore()\n\t\tvar ids []ID\n\t\tfor id := ID(1); id <= 20000; id++ {\n\t\t\tids = append(ids, id)\n\t\t\tms.Collect(SpanID{id, 1, 0})\n\t\t}\n\t\tdone := make(chan bool)\n\t\tgo func() { ms.Delete(ids...); close(done) }()\n\t\tfor end := false; !end; {\n\t\t\tselect {\n\t\t\tcase <-done:\n\t\t\t\tend = true\n\t\t\tdefault:\n\t\t\t}\n\t\t\tms.Lock()\n\t\t\tn := len(ms.trace)\n\t\t\tms.Unlock()\n\t\t\tif n != 0 && n != len(ids) {\n\t\t\t\tt.Fatalf("%d of %d traces are there", n, len(ids))\n\t\t\t}\n\t\t\truntime.Gosched()\n\t\t}\n\t}\n}\n'
