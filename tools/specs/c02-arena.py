ID='c02-arena'; PROPERTY='C02'
NEEDS='two spans that are collected for the second time one after the other, and then the first of them again'
BREAKS='annotations of one span overwrite those of another'
EDITS=[('store.go','''		s.Annotations = append(s.Annotations, as...)
		return nil
''','''		if len(s.Annotations)+len(as) > cap(s.Annotations) {
			s.Annotations = ms.grow(s.Annotations, len(as))
		}
		s.Annotations = append(s.Annotations, as...)
		return nil
'''),('store.go','''	sync.Mutex // protects trace

	log bool
}
''','''	sync.Mutex // protects trace

	log bool

	free Annotations // preallocated, for spans that grow
}

// grow makes room for n more annotations.
func (ms *MemoryStore) grow(as Annotations, n int) Annotations {
	if cap(ms.free) < len(as)+n {
		ms.free = make(Annotations, 0, 256+len(as)+n)
	}
	g := append(ms.free, as...)
	ms.free = ms.free[len(as)+n : len(as)+n : cap(ms.free)]
	return g
}
''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	a, b := SpanID{1, 2, 0}, SpanID{1, 3, 2}
	for _, id := range []SpanID{a, a, b, b, a, a} {
		ms.Collect(id, Annotation{Key: id.String()})
	}
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []*Trace{tr, tr.Sub[0]} {
		for _, an := range s.Annotations {
			if an.Key != s.ID.String() {
				t.Fatal(tr)
			}
		}
	}
}
'''
