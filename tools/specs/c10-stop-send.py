ID='c10-stop-send'; PROPERTY='C10'
NEEDS='Stop while a flush of the background goroutine waits for the lock or for the collector'
BREAKS='Stop never returns (or waits for the flush that is running)'
EDITS=[('collector.go', '\t\tclose(cc.stopChan)\n', '\t\tcc.stopChan <- struct{}{}\n')]
PKG='.'
DEMO='package appdash\n\nimport (\n\t"testing"\n\t"time"\n)\n\ntype demoColl struct{ cc *ChunkedCollector }\n\nfunc (c *demoColl) Collect(SpanID, ...Annotation) error {\n\ttime.Sleep(300 * time.Millisecond)\n\tc.cc.mu.Lock()\n\tc.cc.mu.Unlock()\n\treturn nil\n}\n\nfunc TestDemo(t *testing.T) {\n\tc := &demoColl{}\n\tcc := &ChunkedCollector{Collector: c, MinInterval: 100 * time.Millisecond}\n\tc.cc = cc\n\tcc.Collect(SpanID{1, 1, 0})\n\ttime.Sleep(200 * time.Millisecond)\n\tdone := make(chan bool)\n\tgo func() { cc.Stop(); close(done) }()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(2 * time.Second):\n\t\tt.Fatal("Stop does not return")\n\t}\n}\n'
