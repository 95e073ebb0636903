ID='c19-per-caller'; PROPERTY='C19'
NEEDS='two goroutines that both find the block used up'
BREAKS='the counter is advanced outside of the lock: two goroutines can encrypt the same counter and get the same IDs'
EDITS=[('id.go','''	m.Lock()
	if n == aes.BlockSize {
		c.Encrypt(b, ctr)
''','''	m.Lock()
	if n == aes.BlockSize {
		m.Unlock()
		next := make([]byte, aes.BlockSize) // encrypt without holding up others
		c.Encrypt(next, ctr)
		m.Lock()
		copy(b, next)
''')]
PKG='.'
DEMO='''package appdash

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 40; round++ {
		var wg sync.WaitGroup
		l := make([][]ID, 8)
		for i := range l {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 20000; j++ {
					l[i] = append(l[i], generateID())
				}
			}()
		}
		wg.Wait()
		seen := map[ID]bool{}
		for _, ids := range l {
			for _, id := range ids {
				if seen[id] {
					t.Fatal(id, "came twice")
				}
				seen[id] = true
			}
		}
	}
}
'''
