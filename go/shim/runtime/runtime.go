// Package runtime replaces package runtime in the instrumented code.
package runtime

import "verif/mc"

func Gosched()          { mc.Yield("Gosched") }
func NumGoroutine() int { return mc.LiveThreads() }
