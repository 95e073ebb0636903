// Package log replaces package log in the instrumented code: Fatal ends the simulated process.
package log

import (
	"fmt"

	"verif/mc"
)

func Fatal(v ...any)                 { mc.FatalOp(fmt.Sprint(v...)) }
func Fatalf(format string, v ...any) { mc.FatalOp(fmt.Sprintf(format, v...)) }
func Fatalln(v ...any)               { mc.FatalOp(fmt.Sprintln(v...)) }
