// Command hhttp holds the harnesses for package httptrace.
package main

import (
	"io"
	"log"

	"verif/kit"
	"verif/mc"
)

func main() {
	log.SetOutput(io.Discard)
	kit.Main()
}

func must(t *mc.T, err error, what string) {
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
}
