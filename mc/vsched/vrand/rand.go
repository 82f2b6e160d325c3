// Package vrand has what package math/rand offers. The top-level functions enumerate their possible
// results; sources made by NewSource record their accesses for the race detector.
package vrand

import (
	"math/rand"

	s "verif/mc/vsched"
)

type (
	Source   = rand.Source
	Source64 = rand.Source64
	Rand     = rand.Rand
	Zipf     = rand.Zipf
)

func New(src Source) *Rand                          { return rand.New(src) }
func NewZipf(r *Rand, a, b float64, m uint64) *Zipf { return rand.NewZipf(r, a, b, m) }
func Seed(int64)                                    {}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return s.Choose(n)
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(s.Choose(int(n)))
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(s.Choose(int(n)))
}
func Int() int         { return s.Choose(4) }
func Int31() int32     { return int32(s.Choose(4)) }
func Int63() int64     { return int64(s.Choose(4)) }
func Uint32() uint32   { return uint32(s.Choose(4)) }
func Uint64() uint64   { return uint64(s.Choose(4)) }
func Float64() float64 { return float64(s.Choose(4)) / 4 }
func Float32() float32 { return float32(s.Choose(4)) / 4 }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := s.Choose(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func Shuffle(n int, f func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		f(i, s.Choose(i+1))
	}
}

// source is a plain source whose every use counts as a write of its state.
type source struct {
	src Source64
	n   int // numbers drawn since seeding
}

func NewSource(seed int64) Source { return &source{rand.NewSource(seed).(Source64), 0} }

func (x *source) Int63() int64 {
	s.W(&x.n)
	x.n++
	return x.src.Int63()
}

func (x *source) Uint64() uint64 {
	s.W(&x.n)
	x.n++
	return x.src.Uint64()
}

func (x *source) Seed(seed int64) {
	s.W(&x.n)
	x.n = 0
	x.src.Seed(seed)
}
