ID='c23-listed-spelling'; PROPERTY='C23'
NEEDS='a header listed in RedactedHeaders in other than the canonical spelling'
BREAKS='its values are recorded'
EDITS=[('httptrace/client.go','''		if strings.EqualFold(name, v) {
''','''		if http.CanonicalHeaderKey(name) == v {
''')]
PKG='httptrace'
DEMO='''package httptrace

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func(l []string) { RedactedHeaders = l }(RedactedHeaders)
	RedactedHeaders = []string{"Authorization", "x-api-key"}
	for _, v := range redactHeaders(http.Header{"X-Api-Key": {"a secret"}}, nil) {
		if strings.Contains(v, "secret") {
			t.Fatal(v)
		}
	}
}
'''
