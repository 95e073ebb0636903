ID='c19-read-unlocked'; PROPERTY='C19'
NEEDS='a goroutine that is overtaken by others between leaving the lock and reading its half of the block'
BREAKS='two goroutines get the same ID'
EDITS=[('id.go','''	id := *(*ID)(unsafe.Pointer(&b[n])) // zero-copy b/c we're arch-neutral
	n += idSize
	m.Unlock()
	return id
''','''	at := n
	n += idSize
	m.Unlock()
	return *(*ID)(unsafe.Pointer(&b[at])) // zero-copy b/c we're arch-neutral
''')]
DEMO='''package appdash

import (
	"runtime"
	"slices"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 12; round++ {
		const g, each = 32, 60000
		all := make([]ID, g*each)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			part := all[i*each : (i+1)*each]
			go func() {
				defer wg.Done()
				for j := range part {
					part[j] = generateID()
				}
			}()
		}
		wg.Wait()
		slices.Sort(all)
		for i := 1; i < len(all); i++ {
			if all[i] == all[i-1] {
				t.Fatal("repeated: ", all[i])
			}
		}
	}
}
'''
