ID='c30-important-cache'; PROPERTY='C30'
NEEDS='an event type registered after Important was asked once'
BREAKS='annotations of that event type that it declares important are not taken for important'
EDITS=[('span.go', '\tfor _, ev := range registeredEvents {\n\t\ti, ok := ev.(ImportantEvent)\n\t\tif !ok {\n\t\t\tcontinue\n\t\t}\n\t\tfor _, k := range i.Important() {\n\t\t\tif a.Key == k {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false\n}\n', '\timportantOnce.Do(func() {\n\t\tfor _, ev := range registeredEvents {\n\t\t\tif i, ok := ev.(ImportantEvent); ok {\n\t\t\t\tfor _, k := range i.Important() {\n\t\t\t\t\timportantKeys[k] = true\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t})\n\treturn importantKeys[a.Key]\n}\n\n// importantKeys are the keys that the registered events consider important.\nvar (\n\timportantKeys = map[string]bool{}\n\timportantOnce sync.Once\n)\n'), ('span.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n')]
PKG='.'
DEMO='package appdash\n\nimport "testing"\n\ntype demoImp struct{ K string }\n\nfunc (demoImp) Schema() string      { return "demoimp" }\nfunc (demoImp) Important() []string { return []string{"demo.K"} }\n\nfunc TestDemo(t *testing.T) {\n\ta := Annotation{Key: "demo.K"}\n\tif a.Important() {\n\t\tt.Fatal("important too early")\n\t}\n\tRegisterEvent(demoImp{})\n\tif !a.Important() {\n\t\tt.Fatal("not important")\n\t}\n}\n'
