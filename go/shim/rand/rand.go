// Package rand replaces crypto/rand in the instrumented code: a fixed stream that never repeats.
package rand

import (
	"io"

	"verif/mc"
)

type reader struct{}

// Reader is rand.Reader.
var Reader io.Reader = reader{}

func (reader) Read(p []byte) (int, error) { mc.RandRead(p); return len(p), nil }

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }
