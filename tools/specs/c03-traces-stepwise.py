ID='c03-traces-stepwise'; PROPERTY='C03'
NEEDS='two collections, or a deletion and a collection, between the looks at two traces of one listing'
BREAKS='the listing shows a state the store never had'
EDITS=[('store.go','''	ms.Lock()
	defer ms.Unlock()

	var ts []*Trace
	for id := range ms.trace {
''','''	ms.Lock()
	ids := make([]ID, 0, len(ms.trace))
	for id := range ms.trace {
		ids = append(ids, id)
	}
	ms.Unlock()

	// Writers are not kept waiting while many traces are copied.
	var ts []*Trace
	for _, id := range ids {
'''),('store.go','''		t, err := ms.traceNoLock(id)
		if err != nil {
			return nil, err
		}
		ts = append(ts, t)
''','''		t, err := ms.Trace(id)
		if err == ErrTraceNotFound {
			continue // deleted meanwhile
		}
		if err != nil {
			return nil, err
		}
		ts = append(ts, t)
''')]
DEMO='''package appdash

import "testing"

// Every writer collects trace 2k before trace 2k+1, so no listing may show the second without the first.
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		ms := NewMemoryStore()
		for i := ID(1); i <= 40; i++ {
			ms.Collect(SpanID{i, i, 0})
		}
		done := make(chan bool)
		go func() {
			for n := 1; n <= 40; n++ {
				for i := ID(1); i <= 40; i++ {
					ms.Collect(SpanID{i, i, 0}, Annotation{Key: "k"})
				}
			}
			close(done)
		}()
		for end := false; !end; {
			select {
			case <-done:
				end = true
			default:
			}
			ts, err := ms.Traces(TracesOpts{})
			if err != nil {
				t.Fatal(err)
			}
			var n [41]int
			for _, x := range ts {
				n[x.ID.Trace] = len(x.Annotations)
			}
			for i := 1; i < 40; i++ {
				if n[i] < n[i+1] || n[i] > n[40]+1 {
					t.Fatalf("trace %d has %d annotations, trace %d has %d, the last %d", i, n[i], i+1, n[i+1], n[40])
				}
			}
		}
	}
}
'''
