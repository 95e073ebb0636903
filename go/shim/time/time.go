// Package time replaces package time in the instrumented code: the clock is that of the explorer.
package time

import (
	real "time"

	"verif/mc"
)

func Now() Time                    { return mc.Now() }
func Since(t Time) Duration        { return mc.Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(mc.Now()) }
func Sleep(d Duration)             { mc.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	s *mc.TimerState
}

func NewTimer(d Duration) *Timer {
	c := make(chan real.Time, 1)
	return &Timer{C: c, s: mc.NewTimerOp(c, d, 0)}
}

func AfterFunc(d Duration, f func()) *Timer { return &Timer{s: mc.NewFuncTimerOp(d, f)} }

func (t *Timer) Stop() bool            { return mc.StopTimerOp(t.s) }
func (t *Timer) Reset(d Duration) bool { return mc.ResetTimerOp(t.s, d, 0) }

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan Time
	s *mc.TimerState
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	return &Ticker{C: c, s: mc.NewTimerOp(c, d, d)}
}

func (t *Ticker) Stop()            { mc.StopTimerOp(t.s) }
func (t *Ticker) Reset(d Duration) { mc.ResetTimerOp(t.s, d, d) }
