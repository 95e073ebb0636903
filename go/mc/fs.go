package mc

import (
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated file system of an execution. S owns it.
//
// After every operation that changes it, the set of states in which a crash could leave every
// file is noted: after a kill of the process (everything written is kept) and after a loss of power
// (operations on directories are kept up to any point, data that has not been synced may be
// missing, cut anywhere or zeroed).
type FS struct {
	names  map[string]*inode
	hist   []map[string]*inode // every state of the directory that could be on the disk
	tmp    int
	Events []FSEvent
	fds    map[int64]*openFile
	nextFD int64
	Faults int
}

type inode struct {
	data   []byte
	synced []byte
	dirty  bool
}

type openFile struct {
	ino    *inode
	name   string
	pos    int
	append bool
	rd, wr bool
	closed bool
	dir    bool
}

// isDir tells whether name is a directory: every directory with a file in it, and a few others.
func (f *FS) isDir(name string) bool {
	for n := range f.names {
		for d := filepath.Dir(n); ; d = filepath.Dir(d) {
			if d == name {
				return true
			}
			if d == filepath.Dir(d) {
				break
			}
		}
	}
	return name == "/" || name == "." || name == "/tmp"
}

// FSEvent is one operation on the file system with the states a crash right after it could leave.
type FSEvent struct {
	Seq   int // number of the operation in the execution
	At    time.Duration
	Op    string
	Name  string
	Fault bool
	Kill  map[string]string   // contents after a kill
	Power map[string][]string // contents that are possible after a loss of power; "\x00absent" stands for no file
}

// Absent is the content that stands for a missing file.
const Absent = "\x00absent"

func newFS() *FS {
	return &FS{names: map[string]*inode{}, hist: []map[string]*inode{{}}, fds: map[int64]*openFile{}, nextFD: 3}
}

func (f *FS) dirChanged() {
	m := map[string]*inode{}
	for k, v := range f.names {
		m[k] = v
	}
	f.hist = append(f.hist, m)
}

func (i *inode) powerStates() []string {
	if !i.dirty {
		return []string{string(i.data)}
	}
	set := map[string]bool{string(i.data): true, string(i.synced): true}
	n := len(i.data)
	for _, k := range []int{0, 1, n / 4, n / 2, 3 * n / 4, n - 1} {
		if k >= 0 && k <= n {
			set[string(i.data[:k])] = true
			z := append([]byte(nil), i.data[:k]...)
			z = append(z, make([]byte, n-k)...)
			set[string(z)] = true
		}
	}
	var r []string
	for s := range set {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

func (w *World) fsEvent(op, name string, fault bool) {
	f := w.FS
	e := FSEvent{Seq: w.ops, At: time.Duration(w.now), Op: op, Name: name, Fault: fault, Kill: map[string]string{}, Power: map[string][]string{}}
	if w.Opt.NoPower {
		if len(f.hist) > 1 {
			f.hist = f.hist[len(f.hist)-1:]
		}
		f.Events = append(f.Events, e)
		return
	}
	for n, i := range f.names {
		e.Kill[n] = string(i.data)
	}
	all := map[string]bool{}
	for _, m := range f.hist {
		for n := range m {
			all[n] = true
		}
	}
	for n := range all {
		set := map[string]bool{}
		for _, m := range f.hist {
			i := m[n]
			if i == nil {
				set[Absent] = true
				continue
			}
			for _, s := range i.powerStates() {
				set[s] = true
			}
		}
		for s := range set {
			e.Power[n] = append(e.Power[n], s)
		}
		sort.Strings(e.Power[n])
	}
	f.Events = append(f.Events, e)
}

// fault lets a file operation fail.
func (w *World) fsFault(what string) bool {
	if !w.Opt.FSFault || w.inCheck {
		return false
	}
	if w.Choose(2, 1, "fault: "+what) == 1 {
		w.FS.Faults++
		w.note("      [fault: %s]", what)
		return true
	}
	return false
}

//go:norace
func copyBytes(p []byte) []byte {
	if len(p) == 0 {
		return nil
	}
	q := make([]byte, len(p))
	copy(q, p)
	return q
}

// copyOut copies bytes that S has made: the detector must not see the reads (a call of copy is seen also in norace functions).
func copyOut(dst []byte, r Reply) int {
	n := copyHidden(dst, r)
	for i := 0; i < n; i += 64 {
		dst[i] = dst[i] // but the writes
	}
	return n
}

//go:norace
func copyHidden(dst []byte, r Reply) int {
	if r.V == nil {
		return 0
	}
	src := *r.V.(*[]byte)
	n := 0
	for n < len(src) && n < len(dst) {
		dst[n] = src[n]
		n++
	}
	return n
}

//go:norace
func boxBytes(p []byte) any { return &p }

// errors by number (S replies with numbers, T makes the error)
var errnos = []error{nil, syscall.ENOENT, syscall.EEXIST, syscall.EIO, syscall.ENOSPC, fs.ErrClosed, syscall.EBADF, syscall.EINVAL, io.EOF, syscall.EXDEV}

const (
	eNone = iota
	eNoEnt
	eExist
	eIO
	eNoSpc
	eClosed
	eBadF
	eInval
	eEOF
	eXDev
)

func pathErr(op, name string, m int64) error {
	if m == eEOF {
		return io.EOF
	}
	return &fs.PathError{Op: op, Path: name, Err: errnos[m]}
}

// Open flags of package os, as given by the shim.
type OpenFlag struct{ Read, Write, Append, Create, Excl, Trunc bool }

// FSOpen opens a file.
func FSOpen(name string, fl OpenFlag) (int64, error) {
	name = clean(name)
	r := Do(&Op{Name: "open " + name, Point: true, Exec: func(w *World) Reply {
		f := w.FS
		i := f.names[name]
		if i == nil && !fl.Create {
			if f.isDir(name) {
				f.nextFD++
				f.fds[f.nextFD] = &openFile{ino: &inode{}, name: name, dir: true}
				return Reply{OK: true, N: f.nextFD}
			}
			return Reply{M: eNoEnt}
		}
		if i != nil && fl.Create && fl.Excl {
			return Reply{M: eExist}
		}
		if w.fsFault("open " + name) {
			w.fsEvent("open", name, true)
			return Reply{M: eIO}
		}
		if i == nil {
			i = &inode{}
			f.names[name] = i
			f.dirChanged()
		}
		if fl.Trunc && len(i.data) > 0 {
			i.data = nil
			i.dirty = true
		}
		f.nextFD++
		f.fds[f.nextFD] = &openFile{ino: i, name: name, rd: fl.Read, wr: fl.Write, append: fl.Append}
		if fl.Create || fl.Trunc {
			w.fsEvent("open", name, false)
		}
		return Reply{OK: true, N: f.nextFD}
	}})
	if r.M != 0 {
		return 0, pathErr("open", name, r.M)
	}
	return r.N, nil
}

func clean(name string) string { return filepath.Clean(name) }

// FSTempName chooses a fresh name.
func FSTempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	n := Do(&Op{Name: "temp name", Exec: func(w *World) Reply { w.FS.tmp++; return Reply{N: int64(w.FS.tmp)} }}).N
	num := "9" + itoa(n)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return filepath.Join(dir, pattern[:i]+num+pattern[i+1:])
	}
	return filepath.Join(dir, pattern+num)
}

func itoa(n int64) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// FSWrite writes at the position of the file (at >= 0: there).
func FSWrite(fd int64, name string, p []byte, at int64) (int, error) {
	q := copyBytes(p)
	r := Do(&Op{Name: "write " + name, Point: true, Exec: func(w *World) Reply {
		o := w.FS.fds[fd]
		if o == nil || o.closed {
			return Reply{M: eClosed}
		}
		if !o.wr {
			return Reply{M: eBadF}
		}
		n := len(q)
		m := int64(eNone)
		if n > 0 && w.fsFault("write "+name) {
			n = n / 2
			m = eNoSpc
		}
		pos := o.pos
		if at >= 0 {
			pos = int(at)
		}
		if o.append {
			pos = len(o.ino.data)
		}
		d := append([]byte(nil), o.ino.data...)
		for len(d) < pos+n {
			d = append(d, 0)
		}
		copy(d[pos:], q[:n])
		o.ino.data = d
		o.ino.dirty = true
		if at < 0 {
			o.pos = pos + n
		}
		w.fsEvent("write", o.name, m != eNone)
		return Reply{OK: m == eNone, N: int64(n), M: m}
	}})
	if r.M != 0 {
		return int(r.N), pathErr("write", name, r.M)
	}
	return int(r.N), nil
}

// FSRead reads.
func FSRead(fd int64, name string, p []byte, at int64) (int, error) {
	n := len(p)
	r := Do(&Op{Name: "read " + name, Exec: func(w *World) Reply {
		o := w.FS.fds[fd]
		if o == nil || o.closed {
			return Reply{M: eClosed}
		}
		if !o.rd {
			return Reply{M: eBadF}
		}
		pos := o.pos
		if at >= 0 {
			pos = int(at)
		}
		if n == 0 {
			return Reply{OK: true}
		}
		if pos >= len(o.ino.data) {
			return Reply{M: eEOF}
		}
		if w.fsFault("read " + name) {
			return Reply{M: eIO}
		}
		d := o.ino.data[pos:]
		if len(d) > n {
			d = d[:n]
		}
		if at < 0 {
			o.pos = pos + len(d)
		}
		return Reply{OK: true, N: int64(len(d)), V: boxBytes(d)}
	}})
	if r.M != 0 {
		return 0, pathErr("read", name, r.M)
	}
	return copyOut(p, r), nil
}

// FSSeek moves the position.
func FSSeek(fd int64, name string, off int64, whence int) (int64, error) {
	r := Do(&Op{Name: "seek " + name, Exec: func(w *World) Reply {
		o := w.FS.fds[fd]
		if o == nil || o.closed {
			return Reply{M: eClosed}
		}
		p := off
		if whence == 1 {
			p += int64(o.pos)
		} else if whence == 2 {
			p += int64(len(o.ino.data))
		}
		if p < 0 {
			return Reply{M: eInval}
		}
		o.pos = int(p)
		return Reply{OK: true, N: p}
	}})
	if r.M != 0 {
		return 0, pathErr("seek", name, r.M)
	}
	return r.N, nil
}

// FSTruncate changes the size.
func FSTruncate(fd int64, name string, n int64) error {
	r := Do(&Op{Name: "truncate " + name, Point: true, Exec: func(w *World) Reply {
		o := w.FS.fds[fd]
		if o == nil || o.closed {
			return Reply{M: eClosed}
		}
		if w.fsFault("truncate " + name) {
			w.fsEvent("truncate", o.name, true)
			return Reply{M: eIO}
		}
		d := append([]byte(nil), o.ino.data...)
		for int64(len(d)) < n {
			d = append(d, 0)
		}
		o.ino.data = d[:n]
		o.ino.dirty = true
		w.fsEvent("truncate", o.name, false)
		return Reply{OK: true}
	}})
	if r.M != 0 {
		return pathErr("truncate", name, r.M)
	}
	return nil
}

// FSSync makes the data of a file durable.
func FSSync(fd int64, name string) error {
	r := Do(&Op{Name: "sync " + name, Point: true, Exec: func(w *World) Reply {
		o := w.FS.fds[fd]
		if o == nil || o.closed {
			return Reply{M: eClosed}
		}
		if w.fsFault("sync " + name) {
			w.fsEvent("sync", o.name, true)
			return Reply{M: eIO}
		}
		if o.dir {
			w.FS.hist = nil
			w.FS.dirChanged()
		}
		o.ino.synced = append([]byte(nil), o.ino.data...)
		o.ino.dirty = false
		w.fsEvent("sync", o.name, false)
		return Reply{OK: true}
	}})
	if r.M != 0 {
		return pathErr("sync", name, r.M)
	}
	return nil
}

// FSClose closes a file; a failing close still releases it.
func FSClose(fd int64, name string) error {
	r := Do(&Op{Name: "close " + name, Point: true, Exec: func(w *World) Reply {
		o := w.FS.fds[fd]
		if o == nil || o.closed {
			return Reply{M: eClosed}
		}
		o.closed = true
		if o.wr && w.fsFault("close "+name) {
			w.fsEvent("close", o.name, true)
			return Reply{M: eIO}
		}
		return Reply{OK: true}
	}})
	if r.M != 0 {
		return pathErr("close", name, r.M)
	}
	return nil
}

// device names the file system that holds a file: /tmp has its own.
func device(name string) string {
	if strings.HasPrefix(name, "/tmp/") {
		return "/tmp"
	}
	return "/"
}

// FSRename renames atomically.
func FSRename(from, to string) error {
	from, to = clean(from), clean(to)
	r := Do(&Op{Name: "rename " + from + " " + to, Point: true, Exec: func(w *World) Reply {
		f := w.FS
		i := f.names[from]
		if i == nil {
			return Reply{M: eNoEnt}
		}
		if device(from) != device(to) {
			return Reply{M: eXDev}
		}
		if w.fsFault("rename " + from) {
			w.fsEvent("rename", to, true)
			return Reply{M: eIO}
		}
		delete(f.names, from)
		f.names[to] = i
		f.dirChanged()
		w.fsEvent("rename", to, false)
		return Reply{OK: true}
	}})
	if r.M != 0 {
		return &linkError{"rename", from, to, errnos[r.M]}
	}
	return nil
}

type linkError struct {
	Op, Old, New string
	Err          error
}

func (e *linkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *linkError) Unwrap() error { return e.Err }

// FSRemove removes a file.
func FSRemove(name string) error {
	name = clean(name)
	r := Do(&Op{Name: "remove " + name, Point: true, Exec: func(w *World) Reply {
		f := w.FS
		if f.names[name] == nil {
			return Reply{M: eNoEnt}
		}
		if w.fsFault("remove " + name) {
			w.fsEvent("remove", name, true)
			return Reply{M: eIO}
		}
		delete(f.names, name)
		f.dirChanged()
		w.fsEvent("remove", name, false)
		return Reply{OK: true}
	}})
	if r.M != 0 {
		return pathErr("remove", name, r.M)
	}
	return nil
}

type fileInfo struct {
	name string
	size int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0600 }
func (i fileInfo) ModTime() time.Time { return Epoch }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

// FSStat gives the size of a file.
func FSStat(name string) (fs.FileInfo, error) {
	name = clean(name)
	r := Do(&Op{Name: "stat " + name, Exec: func(w *World) Reply {
		i := w.FS.names[name]
		if i == nil {
			return Reply{M: eNoEnt}
		}
		return Reply{OK: true, N: int64(len(i.data))}
	}})
	if r.M != 0 {
		return nil, pathErr("stat", name, r.M)
	}
	return fileInfo{filepath.Base(name), r.N}, nil
}

// FSPut sets the contents of a file (harness: the state before the execution).
func FSPut(name string, p []byte) {
	name = clean(name)
	q := copyBytes(p)
	Do(&Op{Name: "put " + name, Exec: func(w *World) Reply {
		w.FS.names[name] = &inode{data: q, synced: q}
		w.FS.hist = nil
		w.FS.dirChanged()
		return Reply{OK: true}
	}})
}

// FSReset replaces the whole file system by the given files, as after a restart.
func FSReset(files map[string]string) {
	Do(&Op{Name: "fs reset", Exec: func(w *World) Reply {
		ev, t := w.FS.Events, w.FS.tmp
		w.FS = newFS()
		w.FS.Events, w.FS.tmp = ev, t
		for n, d := range files {
			w.FS.names[n] = &inode{data: []byte(d), synced: []byte(d)}
		}
		w.FS.hist = nil
		w.FS.dirChanged()
		return Reply{OK: true}
	}})
}

// FSFaults returns the number of failing file operations so far.
func FSFaults() int {
	return int(Do(&Op{Name: "file faults?", Exec: func(w *World) Reply { return Reply{N: int64(w.FS.Faults)} }}).N)
}

// FSEvents returns the events so far (not for race builds).
func FSEvents() []FSEvent {
	return Do(&Op{Name: "fs events", Exec: func(w *World) Reply {
		return Reply{V: append([]FSEvent(nil), w.FS.Events...)}
	}}).V.([]FSEvent)
}

// FSHandles lists the files that are open (not for race builds).
func FSHandles() []string {
	return Do(&Op{Name: "fs open", Exec: func(w *World) Reply {
		var l []string
		for _, o := range w.FS.fds {
			if !o.closed {
				l = append(l, o.name)
			}
		}
		sort.Strings(l)
		return Reply{V: l}
	}}).V.([]string)
}

// FSGet returns the contents of a file as a process would read it now.
func FSGet(name string) (string, bool) {
	name = clean(name)
	r := Do(&Op{Name: "fs get", Exec: func(w *World) Reply {
		i := w.FS.names[name]
		if i == nil {
			return Reply{}
		}
		return Reply{OK: true, V: string(i.data)}
	}})
	if !r.OK {
		return "", false
	}
	return r.V.(string), true
}
