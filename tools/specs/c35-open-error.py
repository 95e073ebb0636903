ID='c35-open-error'; PROPERTY='C35'
NEEDS='a store file that cannot be opened (too many open files, no permission)'
BREAKS='the program ends without an error'
EDITS=[('cmd/appdash/serve_cmd.go','''		if err != nil && !os.IsNotExist(err) {
			return err
		}
''','''		if err != nil && !os.IsNotExist(err) {
			log.Printf("Cannot open the store file: %s", err)
			return nil
		}
''')]
PKG='cmd/appdash'; WEB=True
DEMO='''package main

import (
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "file")
	if err := os.WriteFile(f, nil, 0600); err != nil {
		t.Fatal(err)
	}
	c := &ServeCmd{StoreFile: filepath.Join(f, "below-a-file")} // ENOTDIR
	if err := c.Execute(nil); err == nil {
		t.Fatal("no error")
	}
}
'''
