//go:build !race

package mc

import "unsafe"

// RaceEnabled tells whether the program is built with the race detector.
const RaceEnabled = false

func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceDisable()                      {}
func raceEnable()                       {}
func raceErrors() int                   { return 0 }
