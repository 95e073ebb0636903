//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the program is built with the race detector.
const RaceEnabled = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceErrors() int                   { return runtime.RaceErrors() }
