ID='c09-queue-size'; PROPERTY='C09'
NEEDS='a program that queues more than 16 MB between two flushes of a collector made by NewChunkedCollector'
BREAKS='the queue is dropped before it holds the 32 MB that are documented'
EDITS=[('collector.go', '\n\t\tMaxQueueSize: 32 * 1024 * 1024, // 32 MB\n', '\n\t\tMaxQueueSize: 32 << 10 << 10 >> 1,\n')]
PKG='.'
DEMO='package appdash\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tif n := NewChunkedCollector(NewMemoryStore()).MaxQueueSize; n != 32<<20 {\n\t\tt.Fatal(n)\n\t}\n}\n'
