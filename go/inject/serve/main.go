package main

import (
	"io"
	"log"

	"verif/kit"
)

// The main of the program is called _mcMain.
func main() {
	log.SetOutput(io.Discard)
	c28units()
	c29units()
	c35units()
	c37units()
	largeUnits()
	kit.Main()
}
