// Package vrand stands in for package math/rand in instrumented code: the
// top-level functions give a sequence that repeats in every execution, and a
// source of one's own is as unsafe for concurrent use as the real one.
package vrand

import (
	"math/rand"
	"sync"

	"verif.local/shim/vsched"
)

var (
	mu     sync.Mutex
	global = rand.New(rand.NewSource(1))
)

// Reset restarts the global sequence.
func Reset(seed int64) {
	mu.Lock()
	global = rand.New(rand.NewSource(seed))
	mu.Unlock()
}

func do[T any](f func(*rand.Rand) T) T {
	vsched.Point("rand", nil, nil)
	mu.Lock()
	defer mu.Unlock()
	return f(global)
}

// Seed has no effect: the sequence is given by Reset.
func Seed(int64) {}

func Int63() int64         { return do((*rand.Rand).Int63) }
func Uint32() uint32       { return do((*rand.Rand).Uint32) }
func Uint64() uint64       { return do((*rand.Rand).Uint64) }
func Int31() int32         { return do((*rand.Rand).Int31) }
func Int() int             { return do((*rand.Rand).Int) }
func Float64() float64     { return do((*rand.Rand).Float64) }
func Float32() float32     { return do((*rand.Rand).Float32) }
func Int63n(n int64) int64 { return do(func(r *rand.Rand) int64 { return r.Int63n(n) }) }
func Int31n(n int32) int32 { return do(func(r *rand.Rand) int32 { return r.Int31n(n) }) }
func Intn(n int) int       { return do(func(r *rand.Rand) int { return r.Intn(n) }) }
func Perm(n int) []int     { return do(func(r *rand.Rand) []int { return r.Perm(n) }) }
func Shuffle(n int, swap func(i, j int)) {
	do(func(r *rand.Rand) int { r.Shuffle(n, swap); return 0 })
}
func Read(p []byte) (int, error) {
	return do(func(r *rand.Rand) int { n, _ := r.Read(p); return n }), nil
}

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
)

func New(s Source) *Rand { return rand.New(s) }

// NewSource is a small generator whose state is read and written apart.
func NewSource(seed int64) Source { return &source{s: uint64(seed)} }

type source struct{ s uint64 }

func (x *source) Seed(n int64) { x.s = uint64(n) }

func (x *source) Uint64() uint64 {
	vsched.Point("source read", x, nil)
	s := x.s
	vsched.Point("source write", x, nil)
	s += 0x9e3779b97f4a7c15
	x.s = s
	z := s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (x *source) Int63() int64 { return int64(x.Uint64() >> 1) }
