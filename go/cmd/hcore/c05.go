package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/hx"
	"verif/kit"
	"verif/mc"
)

// C05: the persisted file is never torn.
func init() {
	kit.Prop("C05", func(tier string) (us []*kit.Unit) {
		type rf struct{ rounds, faults int }
		rfs := []rf{{3, 1}, {2, 2}}
		if tier == "thorough" {
			rfs = []rf{{4, 2}, {3, 3}}
		}
		for j := 0; j < 2*c05ops; j++ {
			rounds, faults, f := rfs[j/c05ops].rounds, rfs[j/c05ops].faults, j%c05ops
			for pre := 0; pre < 2; pre++ {
				f, pre := f, pre
				us = append(us, &kit.Unit{
					Name: fmt.Sprintf("faults=%d/first=%d/image=%d", faults, f, pre),
					Rule: fmt.Sprintf("all sequences of %d intervals with one of %d changes each (first fixed), <= %d failing file operations at any place, saving taken up again after a failure; a crash after every file operation; image before the start: %v", rounds, c05ops, faults, pre == 1),
					Opt:  mc.Options{Bound: faults, FSFault: true, NoPreempt: true},
					Body: func(t *mc.T) { c05(t, f, pre == 1, rounds) },
				})
			}
		}
		b := 3
		if tier == "thorough" {
			b = 4
		}
		for pre := 0; pre < 2; pre++ {
			pre := pre
			us = append(us, &kit.Unit{
				Name: fmt.Sprintf("concurrent/image=%d", pre),
				Rule: fmt.Sprintf("all schedules with <= %d preemptions or failing file operations of a thread that collects and deletes at the instants of the saves; a crash after every file operation; image before the start: %v", b, pre == 1),
				Opt:  mc.Options{Bound: b, FSFault: true},
				Body: func(t *mc.T) { c05conc(t, pre == 1) },
			})
		}
		us = append(us, &kit.Unit{
			Name: "store fails",
			Rule: "a store whose Write fails after any number of bytes, in the first to third interval: the error is returned, the file keeps the last image",
			Body: c05store,
		})
		return
	})
}

const (
	c05ops  = 6
	c05file = "/data/appdash.store"
	c05int  = time.Second
)

type c05state struct {
	m        *hx.StoreM
	from, to int
}

type c05run struct {
	s      appdash.PersistentStore
	ms     *appdash.MemoryStore
	m      *hx.StoreM
	states []*c05state
	old    *c05state // the image before the start
	oldImg string
	parsed map[string]*appdash.MemoryStore
}

func c05new(t *mc.T, pre bool) *c05run {
	r := &c05run{ms: appdash.NewMemoryStore(), m: hx.NewM(), parsed: map[string]*appdash.MemoryStore{}}
	r.s = r.ms
	if pre {
		o := appdash.NewMemoryStore()
		om := hx.NewM()
		must(t, o.Collect(hx.ID(9, 1, 0), hx.A("old", "1")), "Collect")
		om.Collect(hx.ID(9, 1, 0), hx.A("old", "1"))
		var b bytes.Buffer
		must(t, o.Write(&b), "Write")
		r.oldImg = b.String()
		mc.FSPut(c05file, b.Bytes())
		r.old = &c05state{m: om, from: -1, to: 1 << 60}
	}
	r.states = []*c05state{{m: r.m.Clone(), from: mc.Stamp(), to: 1 << 60}}
	return r
}

func (r *c05run) change(t *mc.T, k, n int) {
	from := mc.Stamp()
	c := func(id appdash.SpanID, as ...appdash.Annotation) {
		r.m.Collect(id, as...)
		must(t, r.s.Collect(id, as...), "Collect")
	}
	switch k {
	case 0:
		return
	case 1:
		c(hx.ID(1, 10, 0), hx.A("n", fmt.Sprint(n)))
	case 2:
		c(hx.ID(1, 11, 10), hx.A("n", fmt.Sprint(n)))
	case 3:
		c(hx.ID(2, 12, 99), hx.A("n", fmt.Sprint(n)))
	case 4:
		r.m.Delete(1)
		must(t, r.ms.Delete(1), "Delete")
	case 5: // (the image of the result can have the size of the one before)
		r.m.Delete(1)
		must(t, r.ms.Delete(1), "Delete")
		c(hx.ID(1, 10, 0), hx.A("n", fmt.Sprint(n)))
	}
	to := mc.Stamp()
	r.states[len(r.states)-1].to = to
	r.states = append(r.states, &c05state{m: r.m.Clone(), from: from, to: 1 << 60})
}

// load reads an image; nil if it is not complete.
func (r *c05run) load(img string) *appdash.MemoryStore {
	l, ok := r.parsed[img]
	if !ok {
		l = appdash.NewMemoryStore()
		rd := strings.NewReader(img)
		if _, err := l.ReadFrom(rd); err != nil {
			l = nil
		}
		r.parsed[img] = l
	}
	return l
}

func (r *c05run) is(img string, s *c05state) bool {
	l := r.load(img)
	return l != nil && hx.CheckStore(l, s.m, 1, 2, 9) == ""
}

// check looks at the file after every file operation so far.
func (r *c05run) check(t *mc.T) {
	cur := mc.Absent
	if r.old != nil {
		cur = r.oldImg
	}
	seen := map[string]bool{cur: true}
	if r.old == nil {
		seen[mc.Absent] = true
	}
	prev := 0
	for _, e := range mc.FSEvents() {
		now, ok := e.Kill[c05file]
		if !ok {
			now = mc.Absent
		}
		if now != cur {
			if now == mc.Absent {
				t.Fail("after %s %s a killed process leaves no store file, there was one before", e.Op, e.Name)
			}
			if r.load(now) == nil {
				t.Fail("after %s %s a killed process leaves a store file of %d bytes that cannot be loaded", e.Op, e.Name, len(now))
			}
			ok := false
			for _, s := range r.states {
				if s.from <= e.Seq && s.to >= prev && r.is(now, s) {
					ok = true
				}
			}
			if !ok {
				t.Fail("after %s %s the store file holds\n%s\nwhich is no state of the store since the previous save", e.Op, e.Name, hx.StoreTree(r.load(now)))
			}
			cur = now
			prev = e.Seq
			seen[now] = true
		}
		ps, ok := e.Power[c05file]
		if !ok {
			ps = []string{mc.Absent}
		}
		for _, p := range ps {
			if seen[p] {
				continue
			}
			what := "no store file"
			if p != mc.Absent {
				what = fmt.Sprintf("a store file of %d bytes (complete: %v)", len(p), r.load(p) != nil)
			}
			t.Fail("after %s %s a loss of power can leave %s", e.Op, e.Name, what)
		}
	}
}

// failed lists the failing operations that count from event number n on.
func c05failed(n int) (l []string) {
	for _, e := range mc.FSEvents()[n:] {
		if e.Fault && e.Op != "remove" {
			l = append(l, e.Op)
		}
	}
	return
}

// c05open checks that no file is open between two saves and after the return.
func c05open(t *mc.T) {
	if l := mc.FSHandles(); len(l) > 0 {
		t.Fail("no save is in progress, and these files are still open: %v", l)
	}
}

func (r *c05run) start(t *mc.T, errp *error, done *bool) *mc.T {
	*done = false
	return t.Go("persist", func() {
		*errp = appdash.PersistEvery(r.s, c05int, c05file)
		*done = true
	})
}

func c05(t *mc.T, first int, pre bool, rounds int) {
	r := c05new(t, pre)
	var err error
	var done bool
	r.start(t, &err, &done)
	mc.AfterIdle()
	mc.Sleep(c05int / 2)
	for i := 0; i < rounds; i++ {
		k := first
		if i > 0 {
			k = t.Choose(c05ops, "change")
		}
		r.change(t, k, i)
		ev := len(mc.FSEvents())
		mc.SleepIdle(c05int)
		bad := c05failed(ev)
		c05open(t)
		if done {
			if err == nil {
				t.Fail("PersistEvery returns without an error")
			}
			if len(bad) == 0 {
				t.Fail("PersistEvery returns %v, nothing has failed", err)
			}
			if !errors.Is(err, syscall.EIO) && !errors.Is(err, syscall.ENOSPC) && !strings.Contains(err.Error(), syscall.EIO.Error()) && !strings.Contains(err.Error(), syscall.ENOSPC.Error()) {
				t.Fail("PersistEvery returns %v when %v failed", err, bad)
			}
			// An operator starts it again.
			r.start(t, &err, &done)
			mc.AfterIdle()
			continue
		}
		if len(bad) > 0 {
			t.Fail("%v failed, and PersistEvery goes on without returning the error", bad)
		}
		img, ok := mc.FSGet(c05file)
		if !ok || !r.is(img, r.states[len(r.states)-1]) {
			c := "absent"
			if l := r.load(img); ok && l != nil {
				c = hx.StoreTree(l)
			}
			t.Fail("an interval has passed without failure, the store file holds\n%s\nand the store holds\n%s", c, r.m.Canon())
		}
	}
	r.check(t)
	mc.State(fmt.Sprint(r.m.Canon(), len(mc.FSEvents())))
}

func c05conc(t *mc.T, pre bool) {
	r := c05new(t, pre)
	r.change(t, 1, 100)
	var err error
	var done bool
	r.start(t, &err, &done)
	mc.AfterIdle()
	m := t.Go("user", func() {
		for i := 0; i < 2; i++ {
			mc.Sleep(c05int)
			r.change(t, 1+i*2, i)
			r.change(t, 2, i)
		}
	})
	t.Join(m)
	mc.AfterIdle()
	mc.Calm()
	ev := 0
	bad := c05failed(ev)
	if done != (len(bad) > 0) || done && err == nil {
		t.Fail("failures: %v, PersistEvery returned: %v %v", bad, done, err)
	}
	r.check(t)
	c05open(t)
	img, _ := mc.FSGet(c05file)
	mc.State(fmt.Sprint(len(img), len(mc.FSEvents())))
}

type c05failing struct {
	*appdash.MemoryStore
	calls, at, bytes int
}

func (s *c05failing) Write(w io.Writer) error {
	s.calls++
	if s.calls < s.at {
		return s.MemoryStore.Write(w)
	}
	var b bytes.Buffer
	if err := s.MemoryStore.Write(&b); err != nil {
		return err
	}
	n := b.Len() * s.bytes / 8
	if _, err := w.Write(b.Bytes()[:n]); err != nil {
		return err
	}
	return errStoreWrite
}

var errStoreWrite = errors.New("store-write-failed")

func c05store(t *mc.T) {
	r := c05new(t, t.Choose(2, "image") == 1)
	fs := &c05failing{MemoryStore: r.ms, at: 1 + t.Choose(3, "fails at"), bytes: t.Choose(9, "bytes")}
	r.s = fs
	var err error
	var done bool
	r.start(t, &err, &done)
	mc.AfterIdle()
	mc.Sleep(c05int / 2)
	last := ""
	for i := 0; i < 3 && !done; i++ {
		r.change(t, 1+i, i)
		last, _ = mc.FSGet(c05file)
		mc.SleepIdle(c05int)
	}
	if !done || err == nil || !strings.Contains(err.Error(), "store-write-failed") {
		t.Fail("the store failed to write, PersistEvery returned: %v %v", done, err)
	}
	if now, _ := mc.FSGet(c05file); now != last {
		t.Fail("a failing Write of the store changed the file")
	}
	c05open(t)
	r.check(t)
}
