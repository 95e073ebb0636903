// Package hx holds the reference model of a span store and the comparison of real stores with it.
package hx

import (
	"fmt"
	"sort"
	"strings"

	"sourcegraph.com/sourcegraph/appdash"
)

// A makes an annotation.
func A(k, v string) appdash.Annotation { return appdash.Annotation{Key: k, Value: []byte(v)} }

// ID makes a span ID.
func ID(trace, span, parent uint64) appdash.SpanID {
	return appdash.SpanID{Trace: appdash.ID(trace), Span: appdash.ID(span), Parent: appdash.ID(parent)}
}

// Rec is a span of the model.
type Rec struct {
	ID   appdash.SpanID
	Anns []appdash.Annotation
}

// TraceM is a trace of the model: its spans in the order of arrival.
type TraceM struct{ Spans []*Rec }

// StoreM is the model of a store.
type StoreM struct{ T map[appdash.ID]*TraceM }

// NewM makes an empty model.
func NewM() *StoreM { return &StoreM{map[appdash.ID]*TraceM{}} }

// Collect is what Store.Collect does.
func (m *StoreM) Collect(id appdash.SpanID, as ...appdash.Annotation) {
	t := m.T[id.Trace]
	if t == nil {
		t = &TraceM{}
		m.T[id.Trace] = t
	}
	cp := make([]appdash.Annotation, len(as))
	for i, a := range as {
		cp[i] = appdash.Annotation{Key: a.Key, Value: append([]byte(nil), a.Value...)}
	}
	for _, r := range t.Spans {
		if r.ID.Span == id.Span {
			r.Anns = append(r.Anns, cp...)
			return
		}
	}
	t.Spans = append(t.Spans, &Rec{id, cp})
}

// Delete is what DeleteStore.Delete does.
func (m *StoreM) Delete(ids ...appdash.ID) {
	for _, id := range ids {
		delete(m.T, id)
	}
}

// Clone copies the model.
func (m *StoreM) Clone() *StoreM {
	c := NewM()
	for id, t := range m.T {
		n := &TraceM{}
		for _, r := range t.Spans {
			n.Spans = append(n.Spans, &Rec{r.ID, append([]appdash.Annotation(nil), r.Anns...)})
		}
		c.T[id] = n
	}
	return c
}

// Anns writes annotations.
func Anns(as []appdash.Annotation) string {
	var b strings.Builder
	for _, a := range as {
		fmt.Fprintf(&b, "%q=%q;", a.Key, a.Value)
	}
	return b.String()
}

func recString(id appdash.SpanID, as []appdash.Annotation) string {
	return fmt.Sprintf("%x/%x/%x{%s}", uint64(id.Trace), uint64(id.Span), uint64(id.Parent), Anns(as))
}

// Canon writes the spans of the model, sorted.
func (m *StoreM) Canon() string {
	var l []string
	for _, t := range m.T {
		l = append(l, t.Canon())
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Canon writes the spans of a trace of the model, sorted.
func (t *TraceM) Canon() string {
	var l []string
	for _, r := range t.Spans {
		l = append(l, recString(r.ID, r.Anns))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Node is a span of a real trace with the one it hangs under.
type Node struct {
	T     *appdash.Trace
	Under *appdash.Trace
}

// Flatten lists the spans of a real trace; it fails on trees that never end.
func Flatten(t *appdash.Trace) (l []Node, msg string) {
	var walk func(t, under *appdash.Trace, depth int) bool
	walk = func(t, under *appdash.Trace, depth int) bool {
		if t == nil {
			msg = "nil span in the tree"
			return false
		}
		if depth > 3000 || len(l) > 20000 {
			msg = "the tree never ends"
			return false
		}
		l = append(l, Node{t, under})
		for _, c := range t.Sub {
			if !walk(c, t, depth+1) {
				return false
			}
		}
		return true
	}
	walk(t, nil, 0)
	return
}

// Canon writes the spans of a real trace, sorted, without the tree.
func Canon(t *appdash.Trace) string {
	l, msg := Flatten(t)
	if msg != "" {
		return msg
	}
	var s []string
	for _, n := range l {
		s = append(s, recString(n.T.Span.ID, n.T.Span.Annotations))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// Tree writes a real trace as a tree, children sorted.
func Tree(t *appdash.Trace) string {
	if _, msg := Flatten(t); msg != "" {
		return msg
	}
	return tree(t)
}

func tree(t *appdash.Trace) string {
	var s []string
	for _, c := range t.Sub {
		s = append(s, tree(c))
	}
	sort.Strings(s)
	return recString(t.Span.ID, t.Span.Annotations) + "(" + strings.Join(s, " ") + ")"
}

// Shape writes a real trace as a tree in its own order, span IDs only.
func Shape(t *appdash.Trace) string {
	var s []string
	for _, c := range t.Sub {
		s = append(s, Shape(c))
	}
	return fmt.Sprintf("%x(%s)", uint64(t.Span.ID.Span), strings.Join(s, " "))
}

// CheckTrace compares a real trace with the model; "" if it agrees.
func CheckTrace(t *appdash.Trace, m *TraceM) string {
	if t == nil {
		return "nil trace without an error"
	}
	l, msg := Flatten(t)
	if msg != "" {
		return msg
	}
	if g, w := Canon(t), m.Canon(); g != w {
		return fmt.Sprintf("spans are\n  %s\nand must be\n  %s", g, w)
	}
	byID := map[appdash.ID]bool{}
	var root *Rec
	for _, r := range m.Spans {
		byID[r.ID.Span] = true
		if r.ID.Parent == 0 {
			root = r
		}
	}
	if root == nil {
		return ""
	}
	if t.Span.ID != root.ID {
		return fmt.Sprintf("the tree is headed by %v, not by the root: %s", t.Span.ID, Shape(t))
	}
	for _, n := range l[1:] {
		want := root.ID.Span
		if byID[n.T.Span.ID.Parent] {
			want = n.T.Span.ID.Parent
		}
		if n.Under.Span.ID.Span != want {
			return fmt.Sprintf("span %x hangs under %x and must hang under %x: %s", uint64(n.T.Span.ID.Span), uint64(n.Under.Span.ID.Span), uint64(want), Shape(t))
		}
	}
	return ""
}

// Querier is a store that can be asked everything.
type Querier interface {
	Trace(appdash.ID) (*appdash.Trace, error)
	Traces(appdash.TracesOpts) ([]*appdash.Trace, error)
}

// CheckStore compares the answers of a store with the model, for the given traces and for the list of all.
func CheckStore(s Querier, m *StoreM, ids ...appdash.ID) string {
	for _, id := range ids {
		if msg := CheckOne(s.Trace, m, id); msg != "" {
			return msg
		}
	}
	ts, err := s.Traces(appdash.TracesOpts{})
	if err != nil {
		return "Traces: " + err.Error()
	}
	return CheckList(ts, m)
}

// CheckOne compares the answer for one trace.
func CheckOne(get func(appdash.ID) (*appdash.Trace, error), m *StoreM, id appdash.ID) string {
	t, err := get(id)
	want := m.T[id]
	if want == nil {
		if err != appdash.ErrTraceNotFound {
			return fmt.Sprintf("trace %x is not stored, but Trace gives %v, %v", uint64(id), t, err)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("trace %x is stored, but Trace gives error %v; want %s", uint64(id), err, want.Canon())
	}
	if msg := CheckTrace(t, want); msg != "" {
		return fmt.Sprintf("trace %x: %s", uint64(id), msg)
	}
	return ""
}

// CheckList compares a listing with the model.
func CheckList(ts []*appdash.Trace, m *StoreM) string {
	seen := map[appdash.ID]bool{}
	for _, t := range ts {
		if t == nil {
			return "the list holds a nil trace"
		}
		id := t.Span.ID.Trace
		if seen[id] {
			return fmt.Sprintf("the list holds trace %x twice", uint64(id))
		}
		seen[id] = true
		w := m.T[id]
		if w == nil {
			return fmt.Sprintf("the list holds trace %x, which is not stored", uint64(id))
		}
		if msg := CheckTrace(t, w); msg != "" {
			return fmt.Sprintf("trace %x in the list: %s", uint64(id), msg)
		}
	}
	for id := range m.T {
		if !seen[id] {
			return fmt.Sprintf("the list lacks trace %x", uint64(id))
		}
	}
	return ""
}

// StoreTree writes every trace of a store as a tree.
func StoreTree(s Querier) string {
	ts, err := s.Traces(appdash.TracesOpts{})
	if err != nil {
		return "error " + err.Error()
	}
	var l []string
	for _, t := range ts {
		if t == nil {
			l = append(l, "nil")
			continue
		}
		l = append(l, Tree(t))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Shapes is the number of shapes of large trees, Orders that of orders of their spans.
const Shapes, Orders = 6, 5

// Large makes a large trace of n spans, parents first: a chain, a star, a binary tree, a comb, children of children of the
// root, or a trace in which half of the parents are missing.
func Large(trace uint64, shape, n int) (l []appdash.SpanID) {
	id := func(i int) uint64 { return uint64(i+1) * 0x9e3779b97f4a7c15 }
	for i := 0; i < n; i++ {
		p := 0
		switch shape {
		case 0:
			p = i - 1
		case 1:
			p = 0
		case 2:
			p = (i - 1) / 2
		case 3:
			p = i - 1 - (i+1)%2
		case 4:
			if i > 20 {
				p = 1 + i%20
			}
		case 5:
			p = i/3*2 + 1
			if i%2 == 1 {
				p = n + i
			}
		}
		if p < 0 || p == i {
			p = 0
		}
		s := ID(trace, id(i), 0)
		if i > 0 {
			s.Parent = appdash.ID(id(p))
		}
		l = append(l, s)
	}
	return
}

// Order gives the spans in another order: as they are, backwards, every second one later, the root in the middle, or from
// the middle to both ends.
func Order(k int, l []appdash.SpanID) (r []appdash.SpanID) {
	n := len(l)
	switch k {
	case 0:
		return append(r, l...)
	case 1:
		for i := range l {
			r = append(r, l[n-1-i])
		}
	case 2:
		for i := 1; i < n; i += 2 {
			r = append(r, l[i])
		}
		for i := 0; i < n; i += 2 {
			r = append(r, l[i])
		}
	case 3:
		r = append(r, l[1:n/2]...)
		r = append(r, l[0])
		r = append(r, l[n/2:]...)
	case 4:
		for i := 0; i < n; i++ {
			j := n/2 + (i+1)/2*(1-2*(i%2))
			r = append(r, l[(j+n)%n])
		}
	}
	return
}
