ID='c13-log-unlocked'; PROPERTY='C13'
NEEDS='Trace set without Debug, no Log given, and two connections that deliver their first packets at the same time'
BREAKS='a data race on the logger of the server, which is made by the first connection that logs'
EDITS=[('collector.go','''func (cs *CollectorServer) log() *log.Logger {
	cs.logMu.Lock()
	defer cs.logMu.Unlock()
	if cs.Log == nil {
''','''func (cs *CollectorServer) log() *log.Logger {
	if cs.Log != nil {
		return cs.Log
	}
	cs.logMu.Lock()
	defer cs.logMu.Unlock()
	if cs.Log == nil {
''')]
EXTRA='-race'
DEMO='''package appdash

import (
	"net"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 200; i++ {
		cs := NewServer(l, nil)
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); cs.log() }()
		}
		wg.Wait()
	}
}
'''
