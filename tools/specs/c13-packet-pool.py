ID='c13-packet-pool'; PROPERTY='C12'
NEEDS='a packet whose first write fails while another sender is building its packet'
BREAKS='the packet is sent again with the contents of the other one: one span is lost, the other is collected twice'
EDITS=[('collector.go', '\treturn &wire.CollectPacket{\n\t\tSpanid:     s.wire(),\n\t\tAnnotation: as.wire(),\n\t}\n', '\tp := packets.Get().(*wire.CollectPacket)\n\tp.Spanid, p.Annotation = s.wire(), as.wire()\n\treturn p\n'), ('collector.go', '// ErrQueueDropped is the error', '// packets are used again after they were written.\nvar packets = sync.Pool{New: func() interface{} { return new(wire.CollectPacket) }}\n\n// ErrQueueDropped is the error'), ('collector.go', '\tif err := rc.pconn.WriteMsg(p); err != nil {\n', '\tdefer packets.Put(p)\n\tif err := rc.pconn.WriteMsg(p); err != nil {\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"errors"\n\t"net"\n\t"sync"\n\t"testing"\n\t"time"\n)\n\ntype demoConn struct {\n\tnet.Conn\n\tfail func() bool\n}\n\nfunc (c demoConn) Write(b []byte) (int, error) {\n\tif c.fail() {\n\t\treturn 0, errors.New("broken")\n\t}\n\treturn c.Conn.Write(b)\n}\n\ntype demoColl struct {\n\tmu  sync.Mutex\n\tgot map[SpanID]int\n}\n\nfunc (c *demoColl) Collect(id SpanID, _ ...Annotation) error {\n\tc.mu.Lock()\n\tdefer c.mu.Unlock()\n\tc.got[id]++\n\treturn nil\n}\n\nfunc TestDemo(t *testing.T) {\n\tl, err := net.Listen("tcp", "127.0.0.1:0")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer l.Close()\n\tcoll := &demoColl{got: map[SpanID]int{}}\n\tgo NewServer(l, coll).Start()\n\trc := NewRemoteCollector(l.Addr().String())\n\tn := 0\n\trc.dial = func() (net.Conn, error) {\n\t\ttime.Sleep(3 * time.Millisecond) // others build their packets meanwhile\n\t\tc, err := net.Dial("tcp", l.Addr().String())\n\t\treturn demoConn{c, func() bool { n++; return n%3 == 0 }}, err\n\t}\n\tvar wg sync.WaitGroup\n\tok := make([][]SpanID, 8)\n\tfor i := range ok {\n\t\ti := i\n\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n\t\t\tfor j := 1; j <= 30; j++ {\n\t\t\t\tid := SpanID{ID(i + 1), ID(j), 0}\n\t\t\t\tif rc.Collect(id) == nil {\n\t\t\t\t\tok[i] = append(ok[i], id)\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t}\n\twg.Wait()\n\ttime.Sleep(300 * time.Millisecond)\n\tcoll.mu.Lock()\n\tdefer coll.mu.Unlock()\n\tfor _, l := range ok {\n\t\tfor _, id := range l {\n\t\t\tif coll.got[id] != 1 {\n\t\t\t\tt.Fatalf("span %v collected %d times", id, coll.got[id])\n\t\t\t}\n\t\t}\n\t}\n}\n'
