// Package os replaces package os in the instrumented code: files are those of the explorer.
package os

import (
	"io"
	"io/fs"
	real "os"
	"strings"

	"verif/mc"
)

// File is os.File.
type File struct {
	fd   int64
	name string
	std  bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	acc := flag & (real.O_RDONLY | real.O_WRONLY | real.O_RDWR)
	fd, err := mc.FSOpen(name, mc.OpenFlag{
		Read:   acc == real.O_RDONLY || acc == real.O_RDWR,
		Write:  acc != real.O_RDONLY,
		Append: flag&real.O_APPEND != 0,
		Create: flag&real.O_CREATE != 0,
		Excl:   flag&real.O_EXCL != 0,
		Trunc:  flag&real.O_TRUNC != 0,
	})
	if err != nil {
		return nil, err
	}
	return &File{fd: fd, name: name}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(mc.FSTempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) { return mc.FSTempName(dir, pattern), nil }
func Mkdir(name string, perm FileMode) error        { return nil }
func MkdirAll(name string, perm FileMode) error     { return nil }
func Rename(from, to string) error                  { return mc.FSRename(from, to) }
func Remove(name string) error                      { return mc.FSRemove(name) }
func Stat(name string) (FileInfo, error)            { return mc.FSStat(name) }
func Lstat(name string) (FileInfo, error)           { return mc.FSStat(name) }
func Chmod(name string, mode FileMode) error        { return nil }
func TempDir() string                               { return "/tmp" }
func Getpid() int                                   { return 4242 }
func Exit(code int)                                 { mc.FatalOp("exit"); panic("unreachable") }
func RemoveAll(name string) error {
	if err := mc.FSRemove(name); err != nil && !real.IsNotExist(err) {
		return err
	}
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.fd) }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std {
		return 0, io.EOF
	}
	return mc.FSRead(f.fd, f.name, p, -1)
}

func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	for len(p) > 0 {
		m, err := mc.FSRead(f.fd, f.name, p, off)
		n += m
		if err != nil {
			return n, err
		}
		p = p[m:]
		off += int64(m)
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std {
		return len(p), nil
	}
	return mc.FSWrite(f.fd, f.name, p, -1)
}

func (f *File) WriteAt(p []byte, off int64) (int, error) { return mc.FSWrite(f.fd, f.name, p, off) }
func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	return mc.FSSeek(f.fd, f.name, off, whence)
}

func (f *File) Truncate(n int64) error { return mc.FSTruncate(f.fd, f.name, n) }

// Sync syncs the file; directories are not simulated as files.
func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std {
		return nil
	}
	return mc.FSSync(f.fd, f.name)
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std {
		return nil
	}
	return mc.FSClose(f.fd, f.name)
}

func (f *File) Chmod(FileMode) error    { return nil }
func (f *File) Stat() (FileInfo, error) { return mc.FSStat(f.name) }
func ReadDir(name string) ([]DirEntry, error) {
	return nil, &fs.PathError{Op: "open", Path: name, Err: ErrInvalid}
}

func Getenv(k string) string {
	if strings.HasPrefix(k, "APPDASH") {
		return ""
	}
	return real.Getenv(k)
}
