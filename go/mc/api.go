package mc

import (
	"fmt"
	"runtime"
	"time"
	"unsafe"
)

// Epoch is the instant at which every execution starts.
var Epoch = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

// Now returns the virtual time.
func Now() time.Time { return Epoch.Add(time.Duration(worldNow())) }

// Elapsed returns the virtual time since the start of the execution.
func Elapsed() time.Duration { return time.Duration(worldNow()) }

// Go starts a harness thread.
func (t *T) Go(name string, f func()) *T { return goNamed(name, f) }

// Join waits for threads to end.
func (t *T) Join(ts ...*T) {
	Do(&Op{Name: "join", Point: true, Enabled: func(w *World) bool {
		for _, u := range ts {
			if w.threads[u.ID].live {
				return false
			}
		}
		return true
	}})
	for _, u := range ts {
		raceAcquire(unsafe.Pointer(&u.done))
	}
}

// Ended tells whether a thread has ended.
func (t *T) Ended(u *T) bool {
	return Do(&Op{Name: "ended?", Exec: func(w *World) Reply { return Reply{OK: !w.threads[u.ID].live} }}).OK
}

// Live returns the number of threads that have not ended.
func (t *T) Live() int {
	return int(Do(&Op{Name: "live?", Exec: func(w *World) Reply { return Reply{N: int64(w.live)} }}).N)
}

// Choose makes a choice among n alternatives, all explored.
func (t *T) Choose(n int, what string) int { return Choose(n, what) }

// Choose makes a choice among n alternatives, all explored.
func Choose(n int, what string) int {
	return int(Do(&Op{Name: "choose", Exec: func(w *World) Reply { return Reply{N: int64(w.choose(n, nil, what))} }}).N)
}

// Deviate makes a choice among n alternatives of which all but 0 count as a deviation.
func Deviate(n int, what string) int {
	return int(Do(&Op{Name: "deviate", Exec: func(w *World) Reply { return Reply{N: int64(w.Choose(n, 1, what))} }}).N)
}

// Fail reports a violation; it does not return.
func (t *T) Fail(format string, a ...any) { Fail(format, a...) }

// Fail reports a violation; it does not return.
func Fail(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if getCur() == nil {
		panic(failNow(msg))
	}
	Do(&Op{Name: "fail", Exec: func(w *World) Reply { w.Fail("%s", msg); return Reply{} }})
	runtime.Goexit() // only reached by threads that are being aborted
}

// Rec adds v to the records of the execution. v must be a fresh value that nobody modifies afterwards.
func Rec(v any) {
	raceReleaseMerge(unsafe.Pointer(&recTok))
	Do(&Op{Name: "rec", Exec: func(w *World) Reply { w.records = append(w.records, v); return Reply{} }})
}

// Records returns the records so far. The caller must be ordered after their writers.
func Records() []any {
	v := Do(&Op{Name: "records", Exec: func(w *World) Reply {
		return Reply{V: recSlice{copyRecords(w.records)}}
	}}).V
	raceAcquire(unsafe.Pointer(&recTok)) // ordered after the writers of the records
	if v == nil {
		return nil
	}
	return v.(recSlice).r
}

var recTok int32

//go:norace
func copyRecords(r []any) []any {
	c := make([]any, len(r))
	for i := range r {
		c[i] = r[i]
	}
	return c
}

type recSlice struct{ r []any }

// State notes an observed state for the coverage figures.
func State(s string) {
	Do(&Op{Name: "state", Exec: func(w *World) Reply { w.noteState(s); return Reply{} }})
}

// Point is a scheduling point.
func Point(name string) { Do(&Op{Name: name, Point: true}) }

// Yield lets other threads run.
func Yield(name string) { Do(&Op{Name: name, Point: true, Yield: true}) }

// Sleep lets virtual time pass.
func Sleep(d time.Duration) {
	var deadline int64
	Do(&Op{Name: "sleep", Point: true,
		OnPost: func(w *World) {
			if d < 0 {
				d = 0
			}
			deadline = w.now + int64(d)
			if d > 0 {
				w.addTimer(int64(d), nil)
			}
		},
		Enabled: func(w *World) bool { return w.now >= deadline },
		Yield:   d <= 0,
	})
}

// Park blocks the thread for the rest of the execution.
func Park(name string) { Do(&Op{Name: name, Point: true, Enabled: never}) }

// Calm ends the exploration of schedules in this execution: from now on the default schedule is taken.
func Calm() {
	Do(&Op{Name: "calm", Exec: func(w *World) Reply { w.calm = true; return Reply{OK: true} }})
}

// Stir takes back Calm: schedules are explored again.
func Stir() {
	Do(&Op{Name: "explore", Exec: func(w *World) Reply { w.calm = false; return Reply{OK: true} }})
}

// Kill ends the process: the other threads never run again, timers are gone, network connections break and listeners are closed.
// The file system stays as it is.
func Kill() {
	NetReset()
	Do(&Op{Name: "kill", Exec: func(w *World) Reply {
		me := getKiller(w)
		for _, th := range w.threads {
			if th != me && th.live {
				th.pending = &Op{Name: "killed", Point: true, Enabled: never}
			}
		}
		w.timers = nil
		delete(w.Ext, "http")
		delete(w.Ext, "fatal")
		return Reply{OK: true}
	}})
}

// getKiller finds the thread whose operation is being executed: the only live one without a pending operation.
func getKiller(w *World) *sthread {
	for _, th := range w.threads {
		if th.live && th.pending == nil {
			return th
		}
	}
	return nil
}

// AfterIdle waits until no other thread can run without time passing.
func AfterIdle() {
	Do(&Op{Name: "idle?", Point: true, Enabled: func(w *World) bool {
		for _, th := range w.threads {
			if th.live && th.pending != nil && th.pending.Name != "idle?" && (th.pending.Enabled == nil || th.pending.Enabled(w)) {
				return false
			}
		}
		return true
	}})
}

// SleepIdle waits d and then until no other thread can run.
func SleepIdle(d time.Duration) { Sleep(d); AfterIdle() }

var resets []func()

// RegisterReset is called by instrumented packages, in dependency order.
func RegisterReset(f func()) { resets = append(resets, f) }

func resetGlobals() {
	RandSeed = nil
	reinit()
}

// Reinit initialises the packages again, as a new process would, with a random stream that begins with seed.
func Reinit(seed []byte) {
	RandSeed = seed
	reinit()
}

func reinit() {
	randCtr = 0
	for _, f := range resets {
		f()
	}
}

// DefaultTrace returns the trace of the world so far (for failures in S).
func (r *Result) Trace() []string { return r.W.trace }

// LiveThreads returns the number of threads that have not ended.
func LiveThreads() int {
	return int(Do(&Op{Name: "live?", Exec: func(w *World) Reply { return Reply{N: int64(w.live)} }}).N)
}

// FatalOp ends the process of the program: the message is kept, the thread never continues.
func FatalOp(msg string) {
	Do(&Op{Name: "fatal exit", Exec: func(w *World) Reply {
		if w.Ext["fatal"] == nil {
			w.Ext["fatal"] = msg
		}
		return Reply{OK: true}
	}})
	Park("dead process")
}

// Fatal tells whether the program has called FatalOp.
func Fatal() bool {
	return Do(&Op{Name: "fatal?", Exec: func(w *World) Reply { return Reply{OK: w.Ext["fatal"] != nil} }}).OK
}

// RandSeed replaces the first bytes of the random stream of an execution.
var RandSeed []byte

var randCtr uint64

// RandRead fills p from the random stream: first RandSeed, then blocks of a counter (mixed so that no byte pattern stands out).
// It starts afresh in every execution.
func RandRead(p []byte) {
	for i := range p {
		n := randCtr
		randCtr++
		if n < uint64(len(RandSeed)) {
			p[i] = RandSeed[n]
			continue
		}
		x := (n / 8) + 0x1234567
		x *= 0x9E3779B97F4A7C15 // odd: a bijection on 64-bit blocks
		x ^= x >> 32
		p[i] = byte(x >> (8 * (n % 8)))
	}
}

// Zero gives a package variable its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Stamp returns the number of operations executed so far: a clock for the order of calls and returns.
func Stamp() int {
	return int(Do(&Op{Name: "stamp", Exec: func(w *World) Reply { return Reply{N: int64(w.ops)} }}).N)
}
