ID='c05-handle'; PROPERTY='C05'
NEEDS='a store whose Write fails'
BREAKS='the temporary file of the failed save stays open'
EDITS=[('store.go', '\t\t\tf.Close()\n\t\t\treturn err\n\t\t}\n\t\t// The data', '\t\t\treturn err\n\t\t}\n\t\t// The data')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"errors"\n\t"io"\n\t"os"\n\t"testing"\n\t"time"\n)\n\ntype demoStore struct {\n\t*MemoryStore\n\tf *os.File\n}\n\nfunc (s *demoStore) Write(w io.Writer) error {\n\ts.f = w.(*os.File)\n\treturn errors.New("cannot write")\n}\n\nfunc TestDemo(t *testing.T) {\n\tos.Setenv("TMPDIR", t.TempDir())\n\ts := &demoStore{MemoryStore: NewMemoryStore()}\n\tif err := PersistEvery(s, time.Millisecond, t.TempDir()+"/f"); err == nil {\n\t\tt.Fatal("no error")\n\t}\n\tif _, err := s.f.Write([]byte("x")); !errors.Is(err, os.ErrClosed) {\n\t\tt.Fatal("the file is still open")\n\t}\n}\n'
