ID='c14-slots'; PROPERTY='C14'
NEEDS='128 clients that send something malformed, one after another, and then any client'
BREAKS='the server accepts no client any more'
EDITS=[('collector.go', '\t\tgo cs.handleConn(conn)\n', '\t\tcs.slots <- struct{}{}\n\t\tgo func() {\n\t\t\tif err := cs.handleConn(conn); err == nil {\n\t\t\t\t<-cs.slots\n\t\t\t}\n\t\t}()\n'), ('collector.go', '\tcs := &CollectorServer{c: c, l: l}\n', '\tcs := &CollectorServer{c: c, l: l, slots: make(chan struct{}, 128)}\n'), ('collector.go', '\t// Trace is whether to log all data that is received.\n\tTrace bool\n', '\t// Trace is whether to log all data that is received.\n\tTrace bool\n\n\tslots chan struct{} // limits the number of clients\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"io/ioutil"\n\t"log"\n\t"net"\n\t"testing"\n\t"time"\n)\n\nfunc TestDemo(t *testing.T) {\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer l.Close()\n\tms := NewMemoryStore()\n\tcs := NewServer(l, ms)\n\tcs.Log = log.New(ioutil.Discard, "", 0)\n\tgo cs.Start()\n\tfor i := 0; i < 300; i++ {\n\t\tc, err := net.Dial("tcp", l.Addr().String())\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tc.Write([]byte{3, 255, 255, 255})\n\t\tc.Close()\n\t}\n\trc := NewRemoteCollector(l.Addr().String())\n\trc.Collect(SpanID{1, 2, 0})\n\tfor i := 0; i < 100; i++ {\n\t\tif _, err := ms.Trace(1); err == nil {\n\t\t\treturn\n\t\t}\n\t\ttime.Sleep(20 * time.Millisecond)\n\t}\n\tt.Fatal("the server collects nothing any more")\n}\n'
