ID='c23-once'; PROPERTY='C23'
NEEDS='a header that is listed in RedactedHeaders after a first request has been recorded'
BREAKS='its values are recorded'
EDITS=[('httptrace/client.go','''	for _, v := range RedactedHeaders {
		if strings.EqualFold(name, v) {
			return true
		}
	}
	return false
}
''','''	redactedOnce.Do(func() {
		for _, v := range RedactedHeaders {
			redactedNames[strings.ToLower(v)] = true
		}
	})
	return redactedNames[strings.ToLower(name)]
}

var (
	redactedOnce  sync.Once
	redactedNames = map[string]bool{} // RedactedHeaders in lower case
)
''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	r.Header.Set("X-Token", "secret")
	NewClientEvent(r)
	RedactedHeaders = append(RedactedHeaders, "x-token")
	if e := NewClientEvent(r); strings.Contains(e.Request.Headers["X-Token"], "secret") {
		t.Fatal(e)
	}
}
'''
