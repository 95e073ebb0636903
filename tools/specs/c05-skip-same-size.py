ID='c05-skip-same-size'; PROPERTY='C05'
NEEDS='two states of the store whose images have the same size'
BREAKS='the save of the newer state is skipped: the file keeps the older one'
EDITS=[('store.go','''	for {
		time.Sleep(interval)

		f, err := ioutil.TempFile("", "appdash")
''','''	saved := int64(-1) // size of the last image
	for {
		time.Sleep(interval)

		f, err := ioutil.TempFile("", "appdash")
'''),('store.go','''		if err := f.Close(); err != nil {
			return err
		}
		if err := os.Rename(f.Name(), file); err != nil {
			return err
		}
''','''		size, err := f.Seek(0, io.SeekCurrent)
		if err != nil {
			return err
		}
		if err := f.Close(); err != nil {
			return err
		}
		if size == saved {
			if fi, err := os.Stat(file); err == nil && fi.Size() == size {
				os.Remove(f.Name()) // nothing new
				continue
			}
		}
		saved = size
		if err := os.Rename(f.Name(), file); err != nil {
			return err
		}
''')]
DEMO='''package appdash

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.Setenv("TMPDIR", dir)
	file := filepath.Join(dir, "store")
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 2, 0}, Annotation{Key: "k", Value: []byte("a")})
	go PersistEvery(ms, 50*time.Millisecond, file)
	time.Sleep(500 * time.Millisecond)
	ms.Delete(1)
	ms.Collect(SpanID{1, 2, 0}, Annotation{Key: "k", Value: []byte("b")})
	time.Sleep(500 * time.Millisecond)
	f, err := os.Open(file)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	got := NewMemoryStore()
	if _, err := got.ReadFrom(f); err != nil {
		t.Fatal(err)
	}
	tr, err := got.Trace(1)
	if err != nil || string(tr.Annotations[0].Value) != "b" {
		t.Fatal("the file holds an old state:", tr, err)
	}
}
'''
