// Package rand replaces math/rand in the instrumented code: the same numbers in every execution, or those the harness wants.
package rand

import (
	real "math/rand"
	"sync"

	"verif/mc"
)

var (
	mu   sync.Mutex
	g    = real.New(real.NewSource(1))
	hook func(n int64) int64
)

func init() {
	mc.RegisterReset(func() {
		mu.Lock()
		defer mu.Unlock()
		g = real.New(real.NewSource(1))
		hook = nil
	})
}

// SetHook lets f give the numbers below n.
func SetHook(f func(n int64) int64) {
	mu.Lock()
	defer mu.Unlock()
	hook = f
}

func next(n int64, f func() int64) int64 {
	mu.Lock()
	h := hook
	if h == nil {
		defer mu.Unlock()
		return f()
	}
	mu.Unlock()
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return h(n)
}

func Seed(int64) {}

func Intn(n int) int       { return int(next(int64(n), func() int64 { return int64(g.Intn(n)) })) }
func Int31n(n int32) int32 { return int32(next(int64(n), func() int64 { return int64(g.Int31n(n)) })) }
func Int63n(n int64) int64 { return next(n, func() int64 { return g.Int63n(n) }) }

func with[T any](f func() T) T {
	mu.Lock()
	defer mu.Unlock()
	return f()
}

func Int() int             { return with(func() int { return g.Int() }) }
func Int31() int32         { return with(func() int32 { return g.Int31() }) }
func Int63() int64         { return with(func() int64 { return g.Int63() }) }
func Uint32() uint32       { return with(func() uint32 { return g.Uint32() }) }
func Uint64() uint64       { return with(func() uint64 { return g.Uint64() }) }
func Float32() float32     { return with(func() float32 { return g.Float32() }) }
func Float64() float64     { return with(func() float64 { return g.Float64() }) }
func ExpFloat64() float64  { return with(func() float64 { return g.ExpFloat64() }) }
func NormFloat64() float64 { return with(func() float64 { return g.NormFloat64() }) }
func Perm(n int) []int     { return with(func() []int { return g.Perm(n) }) }
func Shuffle(n int, swap func(i, j int)) {
	with(func() int { g.Shuffle(n, swap); return 0 })
}
func Read(p []byte) (int, error) { return with(func() int { n, _ := g.Read(p); return n }), nil }
