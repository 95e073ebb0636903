ID='c04-rootless'; PROPERTY='C04'
NEEDS='a trace whose root span has not been collected when the store is saved'
BREAKS='the trace is missing from the saved store'
EDITS=[('store.go', '\treturn gob.NewEncoder(w).Encode(data)\n', '\tcomplete := make(map[ID]*Trace, len(ms.trace))\n\tfor id, t := range data.Trace {\n\t\tif t.ID.IsRoot() {\n\t\t\tcomplete[id] = t\n\t\t}\n\t}\n\treturn gob.NewEncoder(w).Encode(memoryStoreData{complete, nil})\n')]
DEMO='package appdash\n\nimport (\n\t"bytes"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tms := NewMemoryStore()\n\tms.Collect(SpanID{1, 2, 3}, Annotation{Key: "k"})\n\tvar b bytes.Buffer\n\tif err := ms.Write(&b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tn := NewMemoryStore()\n\tif _, err := n.ReadFrom(&b); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err := n.Trace(1); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n'
