ID='c16-uint'; PROPERTY='C16'
NEEDS='an event with an unsigned field of more than 63 bits'
BREAKS='the event cannot be read back'
EDITS=[('reflect.go', '\t\tvv, err := strconv.ParseUint(s, 10, 64)\n', '\t\tsv, err := strconv.ParseInt(s, 10, 64)\n\t\tvv := uint64(sv)\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"math"\n\t"testing"\n)\n\ntype demoEv struct{ U uint64 }\n\nfunc (demoEv) Schema() string { return "demo" }\n\nfunc TestDemo(t *testing.T) {\n\tRegisterEvent(demoEv{})\n\tas, err := MarshalEvent(demoEv{math.MaxUint64})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tvar es []Event\n\tif err := UnmarshalEvents(as, &es); err != nil || len(es) != 1 || es[0] != (demoEv{math.MaxUint64}) {\n\t\tt.Fatal(es, err)\n\t}\n}\n'
