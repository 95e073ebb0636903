ID='c20-parent-cache'; PROPERTY='C20'
NEEDS='two requests with the same Parent-Span-ID'
BREAKS='both are recorded as one and the same span'
EDITS=[('httptrace/server.go', '\treturn func(rw http.ResponseWriter, r *http.Request, next http.HandlerFunc) {\n\t\tspanID, spanFromHeader, err := getSpanID(r.Header)\n', '\tvar mu sync.Mutex\n\tvar lastParent string\n\tvar lastSpan appdash.SpanID\n\treturn func(rw http.ResponseWriter, r *http.Request, next http.HandlerFunc) {\n\t\tspanID, spanFromHeader, err := getSpanID(r.Header)\n\t\tif err == nil && spanFromHeader == HeaderParentSpanID {\n\t\t\t// The assets of one page all come with the same header: one span for\n\t\t\t// all that is requested.\n\t\t\tmu.Lock()\n\t\t\tif p := r.Header.Get(HeaderParentSpanID); p == lastParent {\n\t\t\t\tspanID = &lastSpan\n\t\t\t} else {\n\t\t\t\tlastParent, lastSpan = p, *spanID\n\t\t\t}\n\t\t\tmu.Unlock()\n\t\t}\n'), ('httptrace/server.go', '\t"net/http"\n\t"time"\n', '\t"net/http"\n\t"sync"\n\t"time"\n')]
PKG='httptrace'
DEMO='package httptrace\n\nimport (\n\t"net/http"\n\t"net/http/httptest"\n\t"testing"\n\n\t"sourcegraph.com/sourcegraph/appdash"\n)\n\nfunc TestDemo(t *testing.T) {\n\tmw := Middleware(appdash.NewMemoryStore(), &MiddlewareConfig{})\n\tseen := map[appdash.ID]bool{}\n\tfor i := 0; i < 2; i++ {\n\t\tr := httptest.NewRequest("GET", "/", nil)\n\t\tr.Header.Set("Parent-Span-ID", "0000000000000001/0000000000000002")\n\t\tmw(httptest.NewRecorder(), r, func(_ http.ResponseWriter, r *http.Request) {\n\t\t\tid := SpanID(r)\n\t\t\tif seen[id.Span] || id.Parent != 2 {\n\t\t\t\tt.Fatal(id)\n\t\t\t}\n\t\t\tseen[id.Span] = true\n\t\t})\n\t}\n}\n'
