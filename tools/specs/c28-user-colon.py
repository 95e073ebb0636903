ID='c28-user-colon'; PROPERTY='C28'
NEEDS='a password with a colon'
BREAKS='the server starts, and lets in who knows only the part of the password before the colon'
EDITS=[('cmd/appdash/serve_cmd.go', '\t\tparts := strings.SplitN(c.BasicAuth, ":", 2)\n\t\tif len(parts) != 2 {\n', '\t\tparts := strings.Split(c.BasicAuth, ":")\n\t\tif len(parts) < 2 {\n')]
PKG='cmd/appdash'
WEB=True
EXTRA=''
DEMO='package main\n\nimport (\n\t"net/http"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\t"time"\n)\n\nfunc TestDemo(t *testing.T) {\n\tc := &ServeCmd{HTTPAddr: "127.0.0.1:39417", CollectorAddr: "127.0.0.1:0", StoreFile: filepath.Join(t.TempDir(), "s"), BasicAuth: "u:p:w"}\n\tos.Remove(c.StoreFile)\n\tgo c.Execute(nil)\n\tget := func(pw string) int {\n\t\tfor i := 0; ; i++ {\n\t\t\tr, _ := http.NewRequest("GET", "http://127.0.0.1:39417/traces", nil)\n\t\t\tr.SetBasicAuth("u", pw)\n\t\t\tresp, err := http.DefaultClient.Do(r)\n\t\t\tif err == nil {\n\t\t\t\tresp.Body.Close()\n\t\t\t\treturn resp.StatusCode\n\t\t\t}\n\t\t\tif i > 100 {\n\t\t\t\tt.Fatal(err)\n\t\t\t}\n\t\t\ttime.Sleep(50 * time.Millisecond)\n\t\t}\n\t}\n\tif a, b := get("p:w"), get("p"); a != 200 || b != 401 {\n\t\tt.Fatal(a, b)\n\t}\n}\n'
