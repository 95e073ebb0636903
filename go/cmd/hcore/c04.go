package main

import (
	"bytes"
	"fmt"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C04: a store that has been saved and loaded goes on like the original.
func init() {
	kit.Prop("C04", func(tier string) (us []*kit.Unit) {
		pre, post := 3, 2
		if tier == "thorough" {
			pre, post = 3, 3
		}
		us = append(us, &kit.Unit{
			Name: "truncated",
			Rule: "loading every proper prefix of the images of all states reachable with 2 operations, into empty and used stores",
			Body: c04trunc,
		}, &kit.Unit{
			Name: "twice",
			Rule: "all histories of 2 operations, save, load, 1 operation, save, load, 1 operation; and saving several times",
			Body: c04twice,
		})
		for f := 0; f < c04ops; f++ {
			for _, used := range []bool{false, true} {
				f, used := f, used
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("continue/first=%d/used=%v", f, used),
					Rule: fmt.Sprintf("all histories of %d operations (first fixed), a save and a load into a store (used before: %v), and all continuations of %d operations run on original and copy", pre, used, post),
					Body: func(t *mc.T) { c04(t, f, used, pre, post) },
				})
			}
		}
		return
	})
}

const c04ops = 10

// c04op applies operation k to real stores and the model.
func c04op(t *mc.T, k, step int, m *hx.StoreM, ss ...*appdash.MemoryStore) {
	c := func(id appdash.SpanID, as ...appdash.Annotation) {
		for _, s := range ss {
			must(t, s.Collect(id, as...), "Collect")
		}
		m.Collect(id, as...)
	}
	a := hx.A("s", fmt.Sprint(step))
	switch k {
	case 0:
		c(hx.ID(1, 10, 0), a)
	case 1:
		c(hx.ID(1, 11, 10), a, hx.A("", ""))
	case 2:
		c(hx.ID(1, 12, 11), a)
	case 3:
		c(hx.ID(1, 13, 99)) // its parent never comes
	case 4:
		c(hx.ID(2, 11, 10), a)
	case 5:
		c(hx.ID(2, 10, 0), hx.A("bin", "\x00\xff"))
	case 6:
		for _, s := range ss {
			must(t, s.Delete(1), "Delete")
		}
		m.Delete(1)
	case 7:
		c(hx.ID(1, 11, 10))
	case 8:
		c(hx.ID(1, 14, 12), a)
	case 9:
		for _, s := range ss {
			must(t, s.Delete(2), "Delete")
		}
		m.Delete(2)
	}
}

func c04image(t *mc.T, s *appdash.MemoryStore) []byte {
	var b bytes.Buffer
	must(t, s.Write(&b), "Write")
	return b.Bytes()
}

func c04same(t *mc.T, m *hx.StoreM, a, b *appdash.MemoryStore) {
	for i, s := range []*appdash.MemoryStore{a, b} {
		if msg := hx.CheckStore(s, m, 1, 2, 3); msg != "" {
			t.Fail("%s: %s", []string{"original", "loaded copy"}[i], msg)
		}
	}
	if x, y := hx.StoreTree(a), hx.StoreTree(b); x != y {
		t.Fail("the original answers\n%s\nand the loaded copy\n%s", x, y)
	}
	mc.State(m.Canon())
}

func c04used(t *mc.T, used bool) *appdash.MemoryStore {
	l := appdash.NewMemoryStore()
	if used {
		for _, id := range []appdash.SpanID{hx.ID(1, 12, 10), hx.ID(1, 10, 0), hx.ID(3, 1, 0)} {
			must(t, l.Collect(id, hx.A("old", "1")), "Collect")
		}
	}
	return l
}

func c04(t *mc.T, first int, used bool, pre, post int) {
	o := appdash.NewMemoryStore()
	m := hx.NewM()
	for i := 0; i < pre; i++ {
		k := first
		if i > 0 {
			k = t.Choose(c04ops+1, "operation before") // the last one: nothing more
		}
		if k == c04ops {
			break
		}
		c04op(t, k, i, m, o)
	}
	img := c04image(t, o)
	l := c04used(t, used)
	n, err := l.ReadFrom(bytes.NewReader(img))
	must(t, err, "ReadFrom")
	if int(n) != len(m.T) {
		t.Fail("ReadFrom gives %d traces, the store has %d", n, len(m.T))
	}
	c04same(t, m, o, l)
	for i := 0; i < post; i++ {
		c04op(t, t.Choose(c04ops, "operation after"), 100+i, m, o, l)
		c04same(t, m, o, l)
	}
}

func c04trunc(t *mc.T) {
	o := appdash.NewMemoryStore()
	m := hx.NewM()
	for i := 0; i < 2; i++ {
		if k := t.Choose(c04ops+1, "operation"); k < c04ops {
			c04op(t, k, i, m, o)
		}
	}
	used := t.Choose(2, "used") == 1
	img := c04image(t, o)
	for n := 0; n < len(img); n++ {
		l := c04used(t, used)
		before := hx.StoreTree(l)
		if _, err := l.ReadFrom(bytes.NewReader(img[:n])); err == nil {
			t.Fail("loading the first %d of %d bytes gives no error", n, len(img))
		}
		if after := hx.StoreTree(l); after != before {
			t.Fail("a failed load (%d of %d bytes) has changed the store from\n%s\nto\n%s", n, len(img), before, after)
		}
	}
	// and it can still be used
	l := c04used(t, used)
	l.ReadFrom(bytes.NewReader(img[:len(img)-1]))
	must(t, l.Collect(hx.ID(7, 1, 0), hx.A("n", "1")), "Collect after a failed load")
	_, err := l.ReadFrom(bytes.NewReader(img))
	must(t, err, "ReadFrom")
	c04same(t, m, o, l)
}

func c04twice(t *mc.T) {
	o := appdash.NewMemoryStore()
	m := hx.NewM()
	for i := 0; i < 2; i++ {
		if k := t.Choose(c04ops+1, "operation"); k < c04ops {
			c04op(t, k, i, m, o)
		}
	}
	cur := o
	for r := 0; r < 2; r++ {
		img := c04image(t, cur)
		c04image(t, cur) // saving has no effect on what is saved
		var n *appdash.MemoryStore
		if t.Choose(2, "into itself") == 1 {
			n = cur
		} else {
			n = appdash.NewMemoryStore()
		}
		_, err := n.ReadFrom(bytes.NewReader(img))
		must(t, err, "ReadFrom")
		if n == o {
			c04op(t, t.Choose(c04ops, "operation after"), 50+r, m, o)
		} else {
			c04op(t, t.Choose(c04ops, "operation after"), 50+r, m, o, n)
		}
		c04same(t, m, o, n)
		cur = n
	}
}
