// Package data stands in for the static files of the web UI, which are not available here.
package data

import (
	"io/fs"
	"net/http"
	"os"
	"path"
	"strings"
	"time"
)

// Data has every file whose name has an extension; it contains its name.
var Data http.FileSystem = data{}

type data struct{}

type file struct {
	name string
	*strings.Reader
}

func (data) Open(name string) (http.File, error) {
	if path.Ext(name) == "" || path.Base(name) == "index.html" {
		return nil, os.ErrNotExist
	}
	return &file{path.Base(name), strings.NewReader("static file " + name)}, nil
}

func (f *file) Close() error                             { return nil }
func (f *file) Readdir(count int) ([]fs.FileInfo, error) { return nil, os.ErrInvalid }
func (f *file) Stat() (fs.FileInfo, error)               { return f, nil }
func (f *file) Name() string                             { return f.name }
func (f *file) Mode() fs.FileMode                        { return 0444 }
func (f *file) ModTime() time.Time                       { return time.Unix(1e9, 0) }
func (f *file) IsDir() bool                              { return false }
func (f *file) Sys() any                                 { return nil }
