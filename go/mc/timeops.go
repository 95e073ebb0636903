package mc

import (
	"time"
	"unsafe"
)

// TimerState is S's view of a timer; threads only hold the pointer.
type TimerState struct {
	e      *timerEnt
	period int64
	fire   func(w *World)
}

// NewTimerOp creates a running timer that sends on ch (capacity 1).
func NewTimerOp(ch chan time.Time, d, period time.Duration) *TimerState {
	ts := &TimerState{}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	Do(&Op{Name: "new timer", Exec: func(w *World) Reply {
		ts.period = int64(period)
		ts.fire = func(w *World) {
			ts.e = nil
			sendTime(w, p, 1)
			if ts.period > 0 {
				ts.e = w.addTimer(ts.period, ts.fire)
			}
		}
		ts.e = w.addTimer(int64(d), ts.fire)
		if int64(d) <= 0 {
			w.fireDue()
		}
		return Reply{OK: true}
	}})
	return ts
}

// NewFuncTimerOp creates a timer that runs f in a new thread.
func NewFuncTimerOp(d time.Duration, f func()) *TimerState {
	ts := &TimerState{}
	c := getCur()
	if c == nil || c.dead {
		return ts
	}
	Do(&Op{Name: "new func timer", Exec: func(w *World) Reply {
		ts.fire = func(w *World) {
			ts.e = nil
			t := newT(w.s, "timerfunc")
			go t.run(f)
			w.spawn(t)
		}
		ts.e = w.addTimer(int64(d), ts.fire)
		return Reply{OK: true}
	}})
	return ts
}

// StopTimerOp stops a timer.
func StopTimerOp(ts *TimerState) bool {
	return Do(&Op{Name: "timer.Stop", Point: true, Exec: func(w *World) Reply {
		if ts.e == nil {
			return Reply{}
		}
		ok := w.delTimer(ts.e)
		ts.e = nil
		return Reply{OK: ok}
	}}).OK
}

// ResetTimerOp restarts a timer. drain: a value waiting in ch is discarded (Go 1.23 semantics are not assumed).
func ResetTimerOp(ts *TimerState, d time.Duration, period time.Duration) bool {
	return Do(&Op{Name: "timer.Reset", Point: true, Exec: func(w *World) Reply {
		ok := false
		if ts.e != nil {
			ok = w.delTimer(ts.e)
		}
		if period > 0 {
			ts.period = int64(period)
		}
		if ts.fire != nil {
			ts.e = w.addTimer(int64(d), ts.fire)
		}
		return Reply{OK: ok}
	}}).OK
}
