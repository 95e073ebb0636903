ID='c01-delete-unknown'; PROPERTY='C01'
NEEDS='a deletion of several traces of which an earlier one is not stored'
BREAKS='the traces listed after an unknown one are not deleted'
EDITS=[('store.go','''	for _, id := range traces {
		delete(ms.trace, id)
''','''	for _, id := range traces {
		if _, present := ms.trace[id]; !present {
			break // nothing to delete
		}
		delete(ms.trace, id)
''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 1, 0})
	ms.Delete(2, 1)
	if _, err := ms.Trace(1); err != ErrTraceNotFound {
		t.Fatal("trace 1 was not deleted")
	}
}
'''
