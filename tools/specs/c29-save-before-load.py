ID='c29-save-before-load'; PROPERTY='C29'
NEEDS='a server that is killed in the first interval after a restart, or before a slow load is over'
BREAKS='the store file is removed as soon as it has been read, so that a server that is killed before the first save has lost every trace'
EDITS=[('cmd/appdash/serve_cmd.go', '\t\t\tif err := f.Close(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n', '\t\t\tif err := f.Close(); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\t// From here on the store is in memory only until it is saved.\n\t\t\tif c.PersistInterval != 0 {\n\t\t\t\tos.Rename(c.StoreFile, c.StoreFile+".old")\n\t\t\t}\n')]
PKG='cmd/appdash'
WEB=True
EXTRA=''
DEMO='package main\n\nimport (\n\t"net"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t"time"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tfile := filepath.Join(t.TempDir(), "s")\n\tf, _ := os.Create(file)\n\tms := appdash.NewMemoryStore()\n\tms.Collect(appdash.SpanID{Trace: 1, Span: 2})\n\tif err := ms.Write(f); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf.Close()\n\tc := &ServeCmd{HTTPAddr: "127.0.0.1:39418", CollectorAddr: "127.0.0.1:0", StoreFile: file, PersistInterval: time.Hour}\n\tgo c.Execute(nil)\n\tfor i := 0; i < 200; i++ {\n\t\tif conn, err := net.Dial("tcp", c.HTTPAddr); err == nil {\n\t\t\tconn.Close()\n\t\t\tbreak\n\t\t}\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n\tif _, err := os.Stat(file); err != nil {\n\t\tt.Fatal("a server killed now has lost its traces: ", err)\n\t}\n}\n'
