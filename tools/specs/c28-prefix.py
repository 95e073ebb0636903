ID='c28-prefix'; PROPERTY='C28'
NEEDS='an Authorization header that begins with the right one'
BREAKS='requests with other credentials are served'
EDITS=[('cmd/appdash/serve_cmd.go', '\tif len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {\n', '\tif n := len(h.want); n <= len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr[:n])) == 1 {\n')]
PKG='cmd/appdash'
WEB=True
EXTRA=''
DEMO='package main\n\nimport (\n\t"net/http"\n\t"net/http/httptest"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\th := newBasicAuthHandler("u", "pw", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))\n\tr := httptest.NewRequest("GET", "/", nil)\n\tr.SetBasicAuth("u", "pwxyz")\n\twant := httptest.NewRequest("GET", "/", nil)\n\twant.SetBasicAuth("u", "pw")\n\tr.Header.Set("Authorization", want.Header.Get("Authorization")+"Cg==")\n\tw := httptest.NewRecorder()\n\th.ServeHTTP(w, r)\n\tif w.Code != 401 {\n\t\tt.Fatal(w.Code)\n\t}\n}\n'
