ID='c13-close-unlocked'; PROPERTY='C13'
NEEDS='Close while another goroutine sends'
BREAKS='a data race; a packet may be cut off or a nil connection be used (panic)'
EDITS=[('collector.go','''	rc.mu.Lock()
	defer rc.mu.Unlock()

	if rc.pconn != nil {
		err := rc.pconn.Close()
		rc.pconn = nil
		return err
	}
	return nil
''','''	rc.mu.Lock()
	pconn := rc.pconn
	rc.mu.Unlock()

	// The lock is not held while closing, which may take time.
	if pconn != nil {
		err := pconn.Close()
		rc.pconn = nil
		return err
	}
	return nil
''')]
EXTRA='-race'
DEMO='''package appdash

import (
	"net"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go NewServer(l, NewLocalCollector(NewMemoryStore())).Start()
	rc := NewRemoteCollector(l.Addr().String())
	var wg sync.WaitGroup
	for k := ID(1); k < 3; k++ {
		wg.Add(2)
		go func(k ID) {
			for i := ID(1); i < 200; i++ {
				rc.Collect(SpanID{k, i, 0})
			}
			wg.Done()
		}(k)
		go func() {
			for i := 0; i < 200; i++ {
				rc.Close()
			}
			wg.Done()
		}()
	}
	wg.Wait()
}
'''
