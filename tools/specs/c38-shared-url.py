ID='c38-shared-url'; PROPERTY='C38'
NEEDS='two requests that are handled at the same time'
BREAKS='a page links to the trace of the other request'
EDITS=[('cmd/appdash/example_app.go','''	spanURL := a.appdashURL.ResolveReference(&url.URL{Path: fmt.Sprintf("/traces/%v", span.Trace)})
''','''	a.ref.Path = fmt.Sprintf("/traces/%v", span.Trace)
	spanURL := a.appdashURL.ResolveReference(&a.ref)
'''),('cmd/appdash/example_app.go','''	appdashURL *url.URL
}
''','''	appdashURL *url.URL

	ref url.URL // of the trace, in the web UI
}
''')]
PKG='cmd/appdash'; WEB=True; EXTRA='-race'
DEMO='''package main

import (
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	app := &demoApp{collector: ms}
	s := httptest.NewServer(&middlewareHandler{middleware: httptrace.Middleware(ms, &httptrace.MiddlewareConfig{}), next: app})
	defer s.Close()
	app.baseURL, _ = url.Parse(s.URL)
	app.appdashURL = app.baseURL
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				r, err := http.Get(s.URL + "/")
				if err != nil {
					t.Error(err)
					return
				}
				b, _ := io.ReadAll(r.Body)
				r.Body.Close()
				if !strings.Contains(string(b), "/traces/") {
					t.Error(string(b))
				}
			}
		}()
	}
	wg.Wait()
}
'''
