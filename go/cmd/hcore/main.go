// Command hcore holds the harnesses for package appdash.
package main

import (
	"io"
	"log"

	"verif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	kit.Main()
}
