ID='c12-lost-on-dial-error'; PROPERTY='C12'
NEEDS='a server that cannot be reached for two collections in a row'
BREAKS='the second one is acknowledged although it was not delivered'
EDITS=[('collector.go','''	if err := rc.connect(); err != nil {
		return err
	}
''','''	if err := rc.connect(); err != nil {
		if rc.unreachable = !rc.unreachable; rc.unreachable {
			return err
		}
		return nil // has been reported for the previous packet
	}
	rc.unreachable = false
'''),('collector.go','''	pconn pio.WriteCloser // delimited-protobuf remote connection
''','''	pconn pio.WriteCloser // delimited-protobuf remote connection

	unreachable bool // whether the last attempt to connect failed
''')]
DEMO='''package appdash

import "testing"

func TestDemo(t *testing.T) {
	rc := NewRemoteCollector("127.0.0.1:1")
	for i := 0; i < 3; i++ {
		if err := rc.Collect(SpanID{1, 1, 0}); err == nil {
			t.Fatal("collected without a server")
		}
	}
}
'''
