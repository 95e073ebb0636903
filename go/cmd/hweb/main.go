// Command hweb holds the harnesses for package traceapp.
package main

import (
	"io"
	"log"

	"verif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	kit.Main()
}
