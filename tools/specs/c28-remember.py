ID='c28-remember'; PROPERTY='C28'
NEEDS='a request without credentials on a connection (or from an address) on which a request with them was made, for instance through a proxy'
BREAKS='it is answered'
EDITS=[('cmd/appdash/serve_cmd.go', '\tif len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {\n\t\th.Handler.ServeHTTP(w, r)\n', '\t_, known := h.known.Load(r.RemoteAddr)\n\tif known || len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {\n\t\th.known.Store(r.RemoteAddr, true)\n\t\th.Handler.ServeHTTP(w, r)\n'), ('cmd/appdash/serve_cmd.go', '\treturn &basicAuthHandler{h, []byte(want)}\n', '\treturn &basicAuthHandler{Handler: h, want: []byte(want)}\n'), ('cmd/appdash/serve_cmd.go', '\twant []byte // = "Basic " base64(user ":" passwd) [precomputed]\n', '\twant []byte // = "Basic " base64(user ":" passwd) [precomputed]\n\n\tknown sync.Map // connections that have shown their credentials\n'), ('cmd/appdash/serve_cmd.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n')]
PKG='cmd/appdash'
WEB=True
DEMO='package main\n\nimport (\n\t"net/http"\n\t"net/http/httptest"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\th := newBasicAuthHandler("u", "p", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))\n\tfor _, want := range []int{401, 200, 401} {\n\t\tr, _ := http.NewRequest("GET", "/", nil)\n\t\tr.RemoteAddr = "10.0.0.1:1234"\n\t\tif want == 200 {\n\t\t\tr.SetBasicAuth("u", "p")\n\t\t}\n\t\tw := httptest.NewRecorder()\n\t\th.ServeHTTP(w, r)\n\t\tif w.Code != want {\n\t\t\tt.Fatal(w.Code, want)\n\t\t}\n\t}\n}\n'
