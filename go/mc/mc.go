// Package mc is a stateless model checker for Go code whose synchronisation,
// time, file and network operations have been redirected to it (see ../instr).
//
// One scheduler goroutine ("S", the goroutine that calls Explore) owns all
// explorer state. Program goroutines ("threads") stop before every operation,
// hand it to S and wait for the reply; S decides which pending operation is
// executed next and executes it. So exactly one thread runs at any time, and
// every nondeterministic decision is a numbered choice of S.
//
// Race detection: the hand-off between threads and S is hidden from the race
// detector except for an edge thread -> S (so that S may read what threads
// give it). There is no edge S -> thread, so that two threads are ordered only
// by the edges of the synchronisation operations of the program itself, which
// the shims declare (Acquire/Release). S hence must never write memory that a
// thread reads, replies travel by value through channels.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Reply is the result of an operation, passed by value.
type Reply struct {
	abort bool
	OK    bool
	N     int64
	M     int64
	At    int64
	V     any
}

// Op is an operation that a thread asks S to execute.
type Op struct {
	Name    string
	Point   bool                // scheduling point: S may run other threads first
	Yield   bool                // the thread gives way: switching away is free and the default
	OnPost  func(w *World)      // executed when the operation is handed over
	Enabled func(w *World) bool // nil: always
	Exec    func(w *World) Reply
	exit    bool
	panicV  any
	stack   string
}

// T is the thread's own side of a thread.
type T struct {
	ID    int
	Name  string
	reply chan Reply
	dead  bool // thread-owned
	s     *sched
	done  int32 // sync address for Join
}

// sthread is S's side of a thread.
type sthread struct {
	t       *T
	pending *Op
	live    bool
	sys     bool // background thread, see Options.SysDefault
}

// Options bound and configure an exploration.
type Options struct {
	Bound        int    // maximal number of deviations (preemptions, faults, early timers) per execution
	Timers       bool   // a timer may fire although threads can still run (a deviation)
	MapOrder     int    // range over maps of up to this size: all orders are explored (others: ascending)
	MapFree      bool   // map orders cost nothing (otherwise a non-default order is a deviation)
	Horizon      int    // maximal number of operations per execution
	MaxExecs     int    // stop after so many executions (0: none); reported as not exhaustive
	ShortRead    bool   // reads from connections may return any part of the available data (deviation)
	ReadFree     bool   // ... at no cost
	NetFault     bool   // dials and writes may fail (deviation)
	FaultPart    [2]int // [k, n] with NetFault: only every n-th write, beginning with number k, may fail
	FewCuts      bool   // with NetFault: writes fail after none, some or all bytes only
	NetTransient bool   // with NetFault: also failing writes that leave the connection usable
	FSFault      bool   // file operations may fail (deviation)
	NoPower      bool   // the states of files after a loss of power are not computed (long histories)
	Delay        bool   // any non-default choice of a thread is a deviation, also when the running one blocks or ends (delay bounding)
	AfterUnlock  bool   // a preemption is possible right after the release of a lock, not only before the next operation
	NoPreempt    bool   // no preemption at all (sequential unit); only blocking switches threads
}

type timerEnt struct {
	when int64
	id   int
	fire func(w *World)
}

// World is the state of one execution, owned by S.
type World struct {
	s       *sched
	Opt     *Options
	now     int64
	objs    map[objKey]any
	timers  []*timerEnt
	timerID int
	threads []*sthread
	live    int
	records []any
	ops     int
	hist    uint64
	cost    int
	points  []point
	choices []byte
	prefix  []byte
	fail    *Failure
	trace   []string
	states  map[uint64]struct{}
	FS      *FS
	Net     *Net
	Ext     map[string]any
	inCheck bool
	calm    bool
}

type objKey struct {
	p    unsafe.Pointer
	kind uint8
}

type point struct {
	n     int
	cost  int // cost spent before this point
	costs []int8
	first bool
}

// Failure describes a violated property.
type Failure struct {
	Msg   string
	Trace []string
}

type sched struct {
	in    chan *posted
	tok   int32
	w     *World
	trace bool
}

type posted struct {
	t  *T
	op *Op
}

// cur is the running thread; nil while S runs. Only the holder of the baton reads or writes it.
var cur *T
var curWorld *World

//go:norace
func getCur() *T { return cur }

//go:norace
func setCur(t *T) { cur = t }

//go:norace
func getWorld() *World { return curWorld }

//go:norace
func setWorld(w *World) { curWorld = w }

//go:norace
func afterUnlock() bool { return curWorld != nil && curWorld.Opt.AfterUnlock }

//go:norace
func worldNow() int64 {
	if curWorld == nil {
		return 0
	}
	return curWorld.now
}

// progress is bumped by S for the watchdog.
var progress int64

// Do hands op to S and returns the reply.
func Do(op *Op) Reply {
	t := getCur()
	if t == nil {
		// S itself (a Check function, package initialisation): execute at once.
		w := getWorld()
		if w == nil {
			w = idleWorld()
		}
		if op.OnPost != nil {
			op.OnPost(w)
		}
		if op.Enabled != nil && !op.Enabled(w) {
			panic("mc: operation " + op.Name + " would block outside of an execution")
		}
		if op.Exec == nil {
			return Reply{OK: true}
		}
		return op.Exec(w)
	}
	if t.dead {
		return Reply{}
	}
	if !RaceEnabled {
		// Fast path: this is the only thread, S would come straight back.
		if w := t.s.w; w.live == 1 && len(w.timers) == 0 && !op.exit {
			if op.OnPost != nil {
				op.OnPost(w)
			}
			if (op.Enabled == nil || op.Enabled(w)) && w.ops < w.Opt.Horizon {
				w.step(t.ID, op)
				if op.Exec == nil {
					return Reply{OK: true}
				}
				r := op.Exec(w)
				if w.fail == nil {
					return r
				}
				op = &Op{Name: "fail", Enabled: never}
			} else if op.OnPost != nil {
				o := *op
				o.OnPost = nil
				op = &o
			}
		}
	}
	msg := &posted{t, op} // everything that S reads is written before the release
	raceReleaseMerge(unsafe.Pointer(&t.s.tok))
	raceDisable()
	t.s.in <- msg
	if op.exit {
		raceEnable()
		return Reply{}
	}
	r := <-t.reply
	raceEnable()
	if r.abort {
		t.dead = true
		runtime.Goexit()
	}
	return r
}

func never(*World) bool { return false }

var idle *World

func idleWorld() *World {
	if idle == nil {
		idle = newWorld(&sched{}, &Options{Horizon: 1 << 60}, nil)
	}
	return idle
}

func newWorld(s *sched, opt *Options, prefix []byte) *World {
	w := &World{s: s, Opt: opt, objs: map[objKey]any{}, prefix: prefix, Ext: map[string]any{}, hist: 14695981039346656037}
	w.FS = newFS()
	w.Net = newNet()
	return w
}

func (w *World) step(tid int, op *Op) {
	w.ops++
	atomic.AddInt64(&progress, 1)
	if w.s.trace {
		name := "S"
		if tid >= 0 && tid < len(w.threads) {
			name = w.threads[tid].t.Name
		}
		w.trace = append(w.trace, fmt.Sprintf("%s: %s", name, op.Name))
	}
}

func (w *World) note(format string, a ...any) {
	if w.s.trace {
		w.trace = append(w.trace, fmt.Sprintf(format, a...))
	}
}

// Fail records a violation (S context).
func (w *World) Fail(format string, a ...any) {
	if w.fail == nil {
		w.fail = &Failure{Msg: fmt.Sprintf(format, a...)}
	}
}

// choose makes a numbered choice among n alternatives; costs[i] is the number of deviations of i (nil: all free).
func (w *World) choose(n int, costs []int8, what string) int {
	if n <= 1 {
		return 0
	}
	if n > 250 {
		panic("mc: too many alternatives: " + what)
	}
	i := len(w.choices)
	c := 0
	if i < len(w.prefix) {
		c = int(w.prefix[i])
		if c >= n {
			w.Fail("INTERNAL divergence: choice %d of %d at %s, point %d", c, n, what, i)
			return 0
		}
	}
	w.points = append(w.points, point{n: n, cost: w.cost, costs: costs})
	w.choices = append(w.choices, byte(c))
	if costs != nil {
		w.cost += int(costs[c])
	}
	if w.s.trace && (c != 0 || n > 1) {
		w.note("      [%s: choice %d of %d]", what, c, n)
	}
	return c
}

// Choose is for extensions that run in S.
func (w *World) Choose(n int, cost int8, what string) int {
	if n <= 1 {
		return 0
	}
	var costs []int8
	if cost > 0 {
		costs = make([]int8, n)
		for i := 1; i < n; i++ {
			costs[i] = cost
		}
	}
	return w.choose(n, costs, what)
}

func (w *World) addTimer(d int64, fire func(w *World)) *timerEnt {
	if d < 0 {
		d = 0
	}
	w.timerID++
	e := &timerEnt{w.now + d, w.timerID, fire}
	w.timers = append(w.timers, e)
	return e
}

func (w *World) delTimer(e *timerEnt) bool {
	for i, x := range w.timers {
		if x == e {
			w.timers = append(w.timers[:i:i], w.timers[i+1:]...)
			return true
		}
	}
	return false
}

// advance moves the clock to the next timer and fires everything due.
func (w *World) advance() {
	min := w.timers[0].when
	for _, e := range w.timers {
		if e.when < min {
			min = e.when
		}
	}
	if min > w.now {
		w.now = min
	}
	w.note("      [time %v]", time.Duration(w.now))
	w.fireDue()
}

func (w *World) fireDue() {
	var due, rest []*timerEnt
	for _, e := range w.timers {
		if e.when <= w.now {
			due = append(due, e)
		} else {
			rest = append(rest, e)
		}
	}
	sort.Slice(due, func(i, j int) bool {
		if due[i].when != due[j].when {
			return due[i].when < due[j].when
		}
		return due[i].id < due[j].id
	})
	w.timers = rest
	for _, e := range due {
		if e.fire != nil {
			e.fire(w)
		}
	}
}

// spawn registers a thread whose goroutine waits for its first reply.
func (w *World) spawn(t *T) {
	t.ID = len(w.threads)
	w.threads = append(w.threads, &sthread{t: t, pending: &Op{Name: "start", Point: true}, live: true})
	w.live++
}

func newT(s *sched, name string) *T {
	return &T{Name: name, reply: make(chan Reply), s: s}
}

func (t *T) run(f func()) {
	// First wait for S to schedule the thread.
	raceDisable()
	r := <-t.reply
	raceEnable()
	if r.abort {
		t.dead = true
		t.exit(nil, "")
		return
	}
	normal := false
	defer func() {
		var p any
		stack := ""
		if !normal {
			p = recover()
			if p != nil {
				stack = string(debug.Stack())
			}
		}
		raceReleaseMerge(unsafe.Pointer(&t.done))
		t.exit(p, stack)
	}()
	f()
	normal = true
}

func (t *T) exit(p any, stack string) {
	msg := &posted{t, &Op{Name: "exit", exit: true, panicV: p, stack: stack}}
	raceReleaseMerge(unsafe.Pointer(&t.s.tok))
	raceDisable()
	t.s.in <- msg
	raceEnable()
}

// Go starts a program goroutine as a thread.
func Go(f func()) { goNamed("", f) }

func goNamed(name string, f func()) *T {
	c := getCur()
	if c == nil {
		panic("mc: go statement outside of an execution")
	}
	if c.dead {
		return nil
	}
	t := newT(c.s, name)
	go t.run(f)
	Do(&Op{Name: "go " + name, Exec: func(w *World) Reply {
		w.spawn(t)
		if t.Name == "" {
			t.Name = fmt.Sprintf("g%d", t.ID)
		}
		return Reply{OK: true}
	}})
	return t
}

// execution runs one execution and returns its world.
func execution(opt *Options, prefix []byte, trace bool, body func(*T), check func(*Result), states map[uint64]struct{}) (w *World) {
	s := &sched{in: make(chan *posted), trace: trace}
	w = newWorld(s, opt, prefix)
	s.w = w
	w.states = states
	setWorld(w)
	defer setWorld(nil)
	races := raceErrors()
	main := newT(s, "main")
	go main.run(func() { resetGlobals(); body(main) })
	w.spawn(main)
	curTid := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.fail = &Failure{Msg: fmt.Sprintf("INTERNAL scheduler panic: %v\n%s", r, debug.Stack())}
			}
		}()
		for w.fail == nil {
			// Pick the next thread.
			if w.ops >= opt.Horizon {
				w.Fail("livelock: no end after %d operations", w.ops)
				break
			}
			var en []int
			curEn := false
			var ct *sthread
			if curTid >= 0 {
				ct = w.threads[curTid]
			}
			isEn := func(th *sthread) bool {
				return th.live && th.pending != nil && (th.pending.Enabled == nil || th.pending.Enabled(w))
			}
			pick := -1
			if ct != nil && isEn(ct) {
				if !ct.pending.Point {
					pick = curTid
				} else {
					curEn = true
				}
			}
			if pick < 0 {
				yield := curEn && ct.pending.Yield
				if curEn && !yield {
					en = append(en, curTid)
				}
				if !(curEn && !yield && opt.NoPreempt) {
					for i, th := range w.threads {
						if i != curTid && isEn(th) {
							en = append(en, i)
						}
					}
				}
				if yield {
					en = append(en, curTid)
				}
				if len(en) == 0 {
					if len(w.timers) > 0 {
						w.advance()
						continue
					}
					w.Fail("deadlock: %s", w.describe())
					break
				}
				n := len(en)
				adv := opt.Timers && len(w.timers) > 0 && !w.calm
				if w.calm {
					n = 1
				}
				if adv {
					n++
				}
				if n > 1 {
					costs := make([]int8, n)
					for i := 1; i < n; i++ {
						if curEn && !yield || opt.Delay {
							costs[i] = 1
						}
					}
					if adv {
						costs[n-1] = 1
					}
					c := w.choose(n, costs, "schedule")
					if adv && c == n-1 {
						w.advance()
						continue
					}
					pick = en[c]
				} else {
					pick = en[0]
				}
			}
			th := w.threads[pick]
			if pick != curTid {
				curTid = pick
			}
			op := th.pending
			th.pending = nil
			w.step(pick, op)
			var r Reply
			if op.Exec != nil {
				r = op.Exec(w)
			} else {
				r = Reply{OK: true}
			}
			if w.fail != nil {
				th.pending = op
				break
			}
			if w.resume(th, r) {
				break
			}
		}
	}()
	raced := raceErrors() > races
	// Abort what is left, newest first.
	for i := len(w.threads) - 1; i >= 0; i-- {
		th := w.threads[i]
		if !th.live {
			continue
		}
		setCur(th.t)
		raceDisable()
		th.t.reply <- Reply{abort: true}
		p := <-s.in
		raceEnable()
		raceAcquire(unsafe.Pointer(&s.tok))
		setCur(nil)
		if p.t != th.t || !p.op.exit {
			panic("mc: aborted thread posted " + p.op.Name)
		}
		th.live = false
	}
	if w.fail == nil && raced {
		w.fail = &Failure{Msg: "data race detected by the race detector"}
	}
	if w.fail == nil && check != nil {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(failNow); ok {
						w.Fail("%s", string(f))
						return
					}
					w.Fail("oracle panic: %v\n%s", r, debug.Stack())
				}
			}()
			check(&Result{W: w, Records: w.records})
		}()
	}
	if w.fail != nil {
		w.fail.Trace = w.trace
	}
	return w
}

// resume lets th run until its next operation; it returns true when the execution is over.
func (w *World) resume(th *sthread, r Reply) bool {
	s := w.s
	setCur(th.t)
	raceDisable()
	th.t.reply <- r
	p := <-s.in
	raceEnable()
	raceAcquire(unsafe.Pointer(&s.tok))
	setCur(nil)
	if p.t != th.t {
		panic(fmt.Sprintf("mc: thread %s posted while %s was running", p.t.Name, th.t.Name))
	}
	if p.op.exit {
		th.live = false
		w.live--
		if p.op.panicV != nil {
			if f, ok := p.op.panicV.(failNow); ok {
				w.Fail("%s", string(f))
			} else {
				w.Fail("panic in %s: %v\n%s", th.t.Name, p.op.panicV, p.op.stack)
			}
			return true
		}
		return th.t.ID == 0
	}
	th.pending = p.op
	if p.op.OnPost != nil {
		p.op.OnPost(w)
	}
	return false
}

func (w *World) describe() string {
	var b []string
	for _, th := range w.threads {
		if th.live && th.pending != nil {
			b = append(b, th.t.Name+" waits at "+th.pending.Name)
		}
	}
	return strings.Join(b, ", ")
}

type failNow string

// Result is what a Check function sees: the finished execution.
type Result struct {
	W       *World
	Records []any
}

// Failf reports a violation from a Check function and ends it.
func (r *Result) Failf(format string, a ...any) { panic(failNow(fmt.Sprintf(format, a...))) }

// State notes an observed state (for coverage figures).
func (r *Result) State(s string) { r.W.noteState(s) }

func (w *World) noteState(s string) {
	if w.states != nil && len(w.states) < 4000000 {
		h := fnv.New64a()
		h.Write([]byte(s))
		w.states[h.Sum64()] = struct{}{}
	}
}

// Stats of an exploration.
type Stats struct {
	Execs      int
	Ops        int
	Points     int
	Exhaustive bool
	BoundDone  int // all executions with up to this many deviations were explored
	Bound      int
	MaxPoints  int
	Diverged   int
}

// Explore runs body (and check) under every choice sequence within opt. It stops at the
// first failure, and returns the choices that lead to it.
func Explore(opt Options, body func(*T), check func(*Result), states map[uint64]struct{}, stop func() bool) (st Stats, fail *Failure, choices []byte) {
	if opt.Horizon == 0 {
		opt.Horizon = 20000
	}
	st.Bound = opt.Bound
	st.BoundDone = -1
	stacks := make([][][]byte, opt.Bound+1)
	stacks[0] = [][]byte{nil}
	for b := 0; b <= opt.Bound; b++ {
		for len(stacks[b]) > 0 {
			if opt.MaxExecs > 0 && st.Execs >= opt.MaxExecs || st.Execs%16 == 15 && stop != nil && stop() {
				return
			}
			n := len(stacks[b]) - 1
			prefix := stacks[b][n]
			stacks[b][n] = nil
			stacks[b] = stacks[b][:n]
			if TraceExec != nil {
				TraceExec(prefix)
			}
			w := execution(&opt, prefix, false, body, check, states)
			st.Execs++
			st.Ops += w.ops
			st.Points += len(w.points)
			if len(w.points) > st.MaxPoints {
				st.MaxPoints = len(w.points)
			}
			if w.fail != nil && strings.HasPrefix(w.fail.Msg, "INTERNAL divergence") {
				st.Diverged++
				continue
			}
			if w.fail != nil {
				return st, w.fail, append([]byte(nil), w.choices...)
			}
			for i := len(w.points) - 1; i >= len(prefix); i-- {
				p := w.points[i]
				for alt := p.n - 1; alt >= 1; alt-- {
					c := p.cost
					if p.costs != nil {
						c += int(p.costs[alt])
					}
					if c > opt.Bound {
						continue
					}
					np := make([]byte, i+1)
					copy(np, w.choices[:i])
					np[i] = byte(alt)
					stacks[c] = append(stacks[c], np)
				}
			}
		}
		st.BoundDone = b
	}
	st.Exhaustive = st.Diverged == 0
	return
}

// Progress is a number that grows as long as operations are executed.
func Progress() int64 { return atomic.LoadInt64(&progress) }

// Trace runs the execution with the given choices and returns its operations.
func Trace(opt Options, choices []byte, body func(*T), check func(*Result)) ([]string, *Failure) {
	if opt.Horizon == 0 {
		opt.Horizon = 20000
	}
	w := execution(&opt, choices, true, body, check, nil)
	return w.trace, w.fail
}

// TraceExec, if set, is called with the prefix of every execution before it starts.
var TraceExec func(prefix []byte)

// Replay runs one execution with the given choices and a trace.
func Replay(opt Options, choices []byte, body func(*T), check func(*Result)) *Failure {
	if opt.Horizon == 0 {
		opt.Horizon = 20000
	}
	w := execution(&opt, choices, true, body, check, nil)
	if w.fail != nil {
		w.fail.Trace = w.trace
	}
	return w.fail
}
