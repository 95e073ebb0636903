ID='c19-carry'; PROPERTY='C19'
NEEDS='a counter whose three lowest bytes wrap round: a process that generates many IDs, or an initial counter just below such a carry'
BREAKS='the carry is lost and IDs that were generated before come again'
EDITS=[('id.go','''		for i := aes.BlockSize - 1; i >= 0; i-- { // increment ctr
''','''		for i := aes.BlockSize - 1; i > aes.BlockSize-4; i-- { // increment ctr
''')]
PKG='.'
DEMO='''package appdash

import (
	"crypto/aes"
	"testing"
)

func TestDemo(t *testing.T) {
	m.Lock()
	n = aes.BlockSize
	for i := range ctr {
		ctr[i] = 0
	}
	m.Unlock()
	first := generateID()
	for i := 0; i < 1<<24-1; i++ { // all blocks of the lowest three bytes
		generateID()
		m.Lock()
		n = aes.BlockSize
		m.Unlock()
	}
	for i := 0; i < 6; i++ {
		if generateID() == first {
			t.Fatal("an ID came again")
		}
	}
}
'''
