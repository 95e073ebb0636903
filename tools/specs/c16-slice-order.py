ID='c16-slice-order'; PROPERTY='C16'
NEEDS='a slice or array of more than 10 elements'
BREAKS='its elements come back in another order'
EDITS=[('reflect.go','''			elems = append(elems, elem{i, val})
''','''			elems = append(elems, elem{len(elems), val})
''')]
DEMO='''package appdash

import (
	"reflect"
	"testing"
)

type demoEvent struct{ L []int }

func (demoEvent) Schema() string { return "demo" }

func TestDemo(t *testing.T) {
	e := demoEvent{[]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}}
	as, err := MarshalEvent(e)
	if err != nil {
		t.Fatal(err)
	}
	var g demoEvent
	if err := UnmarshalEvent(as, &g); err != nil || !reflect.DeepEqual(e, g) {
		t.Fatal(g, err)
	}
}
'''
