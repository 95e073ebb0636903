// Package ioutil replaces io/ioutil in the instrumented code.
package ioutil

import (
	"io/fs"

	"verif/shim/os"
)

func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadFile(name string) ([]byte, error)           { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
