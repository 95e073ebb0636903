package mc

import (
	"reflect"
	"sort"
	"time"
	"unsafe"
)

const (
	kMutex uint8 = iota
	kRW
	kWG
	kCond
	kChan
	kPool
)

// ---- mutual exclusion ----

type mutexState struct {
	w       bool // held exclusively
	readers int
	waiting int // writers waiting (a waiting writer blocks new readers, as in package sync)
}

func (w *World) mutex(p unsafe.Pointer) *mutexState {
	k := objKey{p, kMutex}
	m, _ := w.objs[k].(*mutexState)
	if m == nil {
		m = &mutexState{}
		w.objs[k] = m
	}
	return m
}

// LockOp locks the mutex at address p exclusively.
func LockOp(p unsafe.Pointer) {
	Do(&Op{Name: "Lock", Point: true,
		Enabled: func(w *World) bool { m := w.mutex(p); return !m.w && m.readers == 0 },
		Exec:    func(w *World) Reply { w.mutex(p).w = true; return Reply{OK: true} }})
}

// LockRWOp locks an RWMutex exclusively: a writer that has to wait keeps new readers out.
func LockRWOp(p unsafe.Pointer) {
	r := Do(&Op{Name: "Lock", Point: true, Exec: func(w *World) Reply {
		m := w.mutex(p)
		if !m.w && m.readers == 0 {
			m.w = true
			return Reply{OK: true}
		}
		m.waiting++
		return Reply{N: 1}
	}})
	if r.N == 1 {
		Do(&Op{Name: "Lock (waiting)", Point: true,
			Enabled: func(w *World) bool { m := w.mutex(p); return !m.w && m.readers == 0 },
			Exec: func(w *World) Reply {
				m := w.mutex(p)
				m.w = true
				m.waiting--
				return Reply{OK: true}
			}})
	}
}

// TryLockOp tries to lock.
func TryLockOp(p unsafe.Pointer) bool {
	return Do(&Op{Name: "TryLock", Point: true, Exec: func(w *World) Reply {
		m := w.mutex(p)
		if m.w || m.readers > 0 {
			return Reply{}
		}
		m.w = true
		return Reply{OK: true}
	}}).OK
}

// TryRLockOp tries to lock for reading.
func TryRLockOp(p unsafe.Pointer) bool {
	return Do(&Op{Name: "TryRLock", Point: true, Exec: func(w *World) Reply {
		m := w.mutex(p)
		if m.w || m.waiting > 0 {
			return Reply{}
		}
		m.readers++
		return Reply{OK: true}
	}}).OK
}

// UnlockOp releases an exclusive lock.
func UnlockOp(p unsafe.Pointer) {
	Do(&Op{Name: "Unlock", Exec: func(w *World) Reply {
		m := w.mutex(p)
		if !m.w {
			w.Fail("fatal error: sync: unlock of unlocked mutex")
		}
		m.w = false
		return Reply{OK: true}
	}})
	if afterUnlock() {
		Point("unlocked")
	}
}

// RLockOp locks for reading.
func RLockOp(p unsafe.Pointer) {
	Do(&Op{Name: "RLock", Point: true,
		Enabled: func(w *World) bool { m := w.mutex(p); return !m.w && m.waiting == 0 },
		Exec:    func(w *World) Reply { w.mutex(p).readers++; return Reply{OK: true} }})
}

// RUnlockOp releases a read lock.
func RUnlockOp(p unsafe.Pointer) {
	Do(&Op{Name: "RUnlock", Exec: func(w *World) Reply {
		m := w.mutex(p)
		if m.readers == 0 {
			w.Fail("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		return Reply{OK: true}
	}})
}

// Acquire and Release declare happens-before edges to the race detector.
func Acquire(p unsafe.Pointer) {
	if t := getCur(); t != nil && t.dead {
		return
	}
	raceAcquire(p)
}

// Release is the counterpart of Acquire.
func Release(p unsafe.Pointer) { raceReleaseMerge(p) }

// ---- wait groups ----

func (w *World) wg(p unsafe.Pointer) *int {
	k := objKey{p, kWG}
	m, _ := w.objs[k].(*int)
	if m == nil {
		m = new(int)
		w.objs[k] = m
	}
	return m
}

// WGAdd adds to a wait group.
func WGAdd(p unsafe.Pointer, d int) {
	Do(&Op{Name: "WaitGroup.Add", Exec: func(w *World) Reply {
		n := w.wg(p)
		*n += d
		if *n < 0 {
			w.Fail("panic: sync: negative WaitGroup counter")
		}
		return Reply{OK: true}
	}})
}

// WGWait waits for a wait group.
func WGWait(p unsafe.Pointer) {
	Do(&Op{Name: "WaitGroup.Wait", Point: true, Enabled: func(w *World) bool { return *w.wg(p) == 0 }})
}

// ---- condition variables ----

type condState struct{ waiters []*bool }

func (w *World) cond(p unsafe.Pointer) *condState {
	k := objKey{p, kCond}
	m, _ := w.objs[k].(*condState)
	if m == nil {
		m = &condState{}
		w.objs[k] = m
	}
	return m
}

// CondEnqueue registers a waiter and returns its ticket.
func CondEnqueue(p unsafe.Pointer) *bool {
	b := new(bool) // only S reads and writes *b
	Do(&Op{Name: "Cond.enqueue", Exec: func(w *World) Reply {
		c := w.cond(p)
		c.waiters = append(c.waiters, b)
		return Reply{OK: true}
	}})
	return b
}

// CondWait waits for a ticket to be signalled.
func CondWait(b *bool) {
	Do(&Op{Name: "Cond.Wait", Point: true, Enabled: func(w *World) bool { return *b }})
}

// CondSignal wakes one waiter, or all.
func CondSignal(p unsafe.Pointer, all bool) {
	Do(&Op{Name: "Cond.Signal", Point: true, Exec: func(w *World) Reply {
		c := w.cond(p)
		for len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
			if !all {
				break
			}
		}
		return Reply{OK: true}
	}})
}

// ---- channels ----

type chanState struct {
	cap    int
	buf    []elem
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

// elem is a value in a channel. Values sent by S itself (timers) are given by the time only.
type elem struct {
	v  any
	at int64 // virtual time of a timer event, or 0
}

// waiter is an operation that waits at a channel (one case of it).
type waiter struct {
	done *bool // shared by the cases of one select
	sel  *selRes
	idx  int
	val  elem
}

type selRes struct {
	idx int
	val elem
	ok  bool
	pan bool
}

func chanPtr[E any](c <-chan E) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func sendPtr[E any](c chan<- E) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (w *World) chanOf(p unsafe.Pointer, cap int) *chanState {
	k := objKey{p, kChan}
	c, _ := w.objs[k].(*chanState)
	if c == nil {
		c = &chanState{cap: cap}
		w.objs[k] = c
	}
	return c
}

func pruned(q []*waiter) []*waiter {
	for len(q) > 0 && *q[0].done {
		q = q[1:]
	}
	var r []*waiter
	for _, x := range q {
		if !*x.done {
			r = append(r, x)
		}
	}
	return r
}

// Case is one case of a select statement.
type Case struct {
	send bool
	p    unsafe.Pointer
	cap  int
	val  elem
	set  func(e elem, ok bool)
}

// canGo tells whether the case can proceed now.
func (c *Case) canGo(w *World) bool {
	if c.p == nil {
		return false
	}
	ch := w.chanOf(c.p, c.cap)
	if c.send {
		if ch.closed || len(ch.buf) < ch.cap {
			return true
		}
		ch.recvq = pruned(ch.recvq)
		return len(ch.recvq) > 0
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	ch.sendq = pruned(ch.sendq)
	return len(ch.sendq) > 0
}

func (c *Case) perform(w *World) (val elem, ok, pan bool) {
	ch := w.chanOf(c.p, c.cap)
	if c.send {
		if ch.closed {
			return elem{}, false, true
		}
		ch.recvq = pruned(ch.recvq)
		if len(ch.recvq) > 0 {
			r := ch.recvq[0]
			ch.recvq = ch.recvq[1:]
			*r.done = true
			*r.sel = selRes{idx: r.idx, val: c.val, ok: true}
			return elem{}, true, false
		}
		ch.buf = append(ch.buf, c.val)
		return elem{}, true, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]elem(nil), ch.buf[1:]...)
		ch.sendq = pruned(ch.sendq)
		if len(ch.sendq) > 0 {
			s := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			*s.done = true
			*s.sel = selRes{idx: s.idx, ok: true}
			ch.buf = append(ch.buf, s.val)
		}
		return v, true, false
	}
	ch.sendq = pruned(ch.sendq)
	if len(ch.sendq) > 0 {
		s := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		*s.done = true
		*s.sel = selRes{idx: s.idx, ok: true}
		return s.val, true, false
	}
	return elem{}, false, false // closed
}

// Select performs one of the cases and returns its index, or -1 for the default case.
func Select(def bool, cases ...*Case) int {
	name := "select"
	if len(cases) == 1 && !def {
		name = "receive"
		if cases[0].send {
			name = "send"
		}
	}
	for _, c := range cases {
		if c.p != nil {
			Release(c.p)
		}
	}
	// The operation is executed in two steps when it must wait: first it is queued at its channels
	// (so that a partner can complete it), then it waits for the completion.
	done, sel := new(bool), &selRes{} // only S reads and writes them
	r := Do(&Op{Name: name, Point: true, Exec: func(w *World) Reply {
		var ready []int
		for i, c := range cases {
			if c.canGo(w) {
				ready = append(ready, i)
			}
		}
		if len(ready) == 0 {
			if def {
				return Reply{OK: true, N: -1}
			}
			for i, c := range cases {
				if c.p == nil {
					continue
				}
				ch := w.chanOf(c.p, c.cap)
				x := &waiter{done, sel, i, c.val}
				if c.send {
					ch.sendq = append(ch.sendq, x)
				} else {
					ch.recvq = append(ch.recvq, x)
				}
			}
			return Reply{N: -2}
		}
		i := ready[w.choose(len(ready), nil, "select case")]
		v, ok, pan := cases[i].perform(w)
		rep := Reply{OK: ok, N: int64(i), V: v.v, At: v.at}
		if pan {
			rep.M = 1
		}
		return rep
	}})
	if getCur() != nil && getCur().dead {
		return 0
	}
	if r.N == -2 {
		r = Do(&Op{Name: name + " (waiting)", Point: true,
			Enabled: func(w *World) bool { return *done },
			Exec: func(w *World) Reply {
				rep := Reply{OK: sel.ok, N: int64(sel.idx), V: sel.val.v, At: sel.val.at}
				if sel.pan {
					rep.M = 1
				}
				return rep
			}})
	}
	if r.N < 0 {
		return -1
	}
	c := cases[r.N]
	if c.p != nil {
		Acquire(c.p)
	}
	if r.M == 1 {
		panic("send on closed channel")
	}
	if c.set != nil {
		c.set(elem{r.V, r.At}, r.OK)
	}
	return int(r.N)
}

// RecvC is a receive case with its result.
type RecvC[E any] struct {
	V  E
	OK bool
	c  Case
}

// Case returns the select case.
func (r *RecvC[E]) Case() *Case { return &r.c }

// RecvCase makes a receive case.
func RecvCase[E any](ch <-chan E) *RecvC[E] {
	r := &RecvC[E]{}
	r.c = Case{p: chanPtr(ch), cap: cap(ch), set: func(e elem, ok bool) {
		if e.at != 0 {
			r.V = any(Epoch.Add(time.Duration(e.at))).(E)
		} else if e.v != nil {
			r.V = e.v.(E)
		}
		r.OK = ok
	}}
	return r
}

// SendC is a send case.
type SendC struct{ c Case }

// Case returns the select case.
func (r *SendC) Case() *Case { return &r.c }

// SendCase makes a send case; the value is given in a second call so that its type is that of the channel.
func SendCase[E any](ch chan<- E) func(E) *SendC {
	return func(v E) *SendC {
		return &SendC{Case{send: true, p: sendPtr(ch), cap: cap(ch), val: elem{v: v}}}
	}
}

// Recv receives.
func Recv[E any](ch <-chan E) E {
	r := RecvCase(ch)
	Select(false, &r.c)
	return r.V
}

// Recv2 receives with the ok result.
func Recv2[E any](ch <-chan E) (E, bool) {
	r := RecvCase(ch)
	Select(false, &r.c)
	return r.V, r.OK
}

// Send sends.
func Send[E any](ch chan<- E) func(E) {
	return func(v E) {
		c := SendCase(ch)(v)
		Select(false, &c.c)
	}
}

// Close closes a channel.
func Close[E any](ch chan<- E) {
	p := sendPtr(ch)
	if p == nil {
		panic("close of nil channel")
	}
	Release(p)
	n := cap(ch)
	r := Do(&Op{Name: "close", Point: true, Exec: func(w *World) Reply {
		c := w.chanOf(p, n)
		if c.closed {
			return Reply{M: 1}
		}
		c.closed = true
		for _, x := range pruned(c.recvq) {
			*x.done = true
			*x.sel = selRes{idx: x.idx}
		}
		for _, x := range pruned(c.sendq) {
			*x.done = true
			*x.sel = selRes{idx: x.idx, pan: true}
		}
		c.recvq, c.sendq = nil, nil
		return Reply{OK: true}
	}})
	if r.M == 1 {
		panic("close of closed channel")
	}
}

// Len is len(ch).
func Len[E any](ch <-chan E) int {
	p := chanPtr(ch)
	if p == nil {
		return 0
	}
	n := cap(ch)
	return int(Do(&Op{Name: "len", Point: true, Exec: func(w *World) Reply { return Reply{N: int64(len(w.chanOf(p, n).buf))} }}).N)
}

// sendTime sends the current time from S (timers); it is dropped if the channel is full.
func sendTime(w *World, p unsafe.Pointer, n int) {
	at := w.now
	if at == 0 {
		at = 1
	}
	c := Case{send: true, p: p, cap: n, val: elem{at: at}}
	if c.canGo(w) {
		c.perform(w)
	}
}

// ChanIter iterates over a channel.
func ChanIter[E any](ch <-chan E) (*ChanIt[E], E) {
	var z E
	return &ChanIt[E]{ch}, z
}

// ChanIt is a running iteration.
type ChanIt[E any] struct{ ch <-chan E }

// Next receives the next element.
func (it *ChanIt[E]) Next(v *E) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ---- maps ----

// MapIt is a running iteration over a map.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapIter starts an iteration; the zero values only declare the loop variables.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	it := &MapIt[K, V]{m: m}
	for x := range m {
		it.keys = append(it.keys, x)
	}
	sortKeys(it.keys)
	permute(it.keys)
	return it, k, v
}

// Next moves to the next entry that is still present.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		x := it.keys[0]
		it.keys = it.keys[1:]
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

func permute[K any](keys []K) {
	n := len(keys)
	w := getWorld()
	if n < 2 || w == nil || w.Opt.MapOrder < n || getCur() == nil {
		return
	}
	// Lehmer code: pick each next element among the remaining ones.
	for i := 0; i < n-1; i++ {
		left := n - i
		c := int(Do(&Op{Name: "map order", Exec: func(w *World) Reply {
			if w.calm {
				return Reply{}
			}
			cost := int8(1)
			if w.Opt.MapFree {
				cost = 0
			}
			return Reply{N: int64(w.Choose(left, cost, "map order"))}
		}}).N)
		if c > 0 {
			x := keys[i+c]
			copy(keys[i+1:i+c+1], keys[i:i+c])
			keys[i] = x
		}
	}
}

func sortKeys[K any](keys []K) {
	if len(keys) < 2 {
		return
	}
	sort.SliceStable(keys, func(i, j int) bool { return lessValue(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
}

func lessValue(a, b reflect.Value) bool { return cmpValue(a, b) < 0 }

func cmpValue(a, b reflect.Value) int {
	if !a.IsValid() || !b.IsValid() {
		switch {
		case !a.IsValid() && b.IsValid():
			return -1
		case a.IsValid() && !b.IsValid():
			return 1
		}
		return 0
	}
	if a.Type() != b.Type() {
		if a.Type().String() < b.Type().String() {
			return -1
		}
		return 1
	}
	lt := func(x bool, y bool) int {
		if x {
			return -1
		}
		if y {
			return 1
		}
		return 0
	}
	switch a.Kind() {
	case reflect.Bool:
		return lt(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return lt(a.Int() < b.Int(), a.Int() > b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return lt(a.Uint() < b.Uint(), a.Uint() > b.Uint())
	case reflect.Float32, reflect.Float64:
		return lt(a.Float() < b.Float(), a.Float() > b.Float())
	case reflect.String:
		return lt(a.String() < b.String(), a.String() > b.String())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpValue(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpValue(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		return cmpValue(a.Elem(), b.Elem())
	}
	return 0 // pointers, channels: keep the order found
}

// MapKeys is reflect.Value.MapKeys with a deterministic or chosen order.
func MapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	sort.SliceStable(keys, func(i, j int) bool { return lessValue(keys[i], keys[j]) })
	permute(keys)
	return keys
}

// ReflectMapIter is reflect.Value.MapRange with a deterministic or chosen order.
type ReflectMapIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// MapRange replaces reflect.Value.MapRange.
func MapRange(v reflect.Value) *ReflectMapIter { return &ReflectMapIter{m: v, keys: MapKeys(v), i: -1} }

// Next moves on.
func (it *ReflectMapIter) Next() bool { it.i++; return it.i < len(it.keys) }

// Key returns the key.
func (it *ReflectMapIter) Key() reflect.Value { return it.keys[it.i] }

// Value returns the value.
func (it *ReflectMapIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }
