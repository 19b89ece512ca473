// Package vrand stands in for math/rand when a harness is replayed.
package vrand

import (
	"math/rand"

	"github.com/folbricht/routedns/zzvf"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	zzvf.SetRandN(n)
	return int(zzvf.U64("rand64"))
}
func IntN(n int) int       { return Intn(n) }
func Int64N(n int64) int64 { return Int63n(n) }
func Int32N(n int32) int32 { return Int31n(n) }
func Int63n(n int64) int64 { return int64(zzvf.U64("rand64")) }
func Int31n(n int32) int32 { return int32(zzvf.U32("rand32")) }
func Int() int             { return int(zzvf.U64("rand64")) }
func Int63() int64         { return int64(zzvf.U64("rand64")) }
func Uint32() uint32       { return zzvf.U32("rand32") }
func Uint64() uint64       { return zzvf.U64("rand64") }
func Float64() float64 {
	if zzvf.Tier() == 0 {
		return []float64{0, 0.9999}[zzvf.Choose("randf", 2)]
	}
	return []float64{0, 0.3, 0.6, 0.9999}[zzvf.Choose("randf", 4)]
}
func Seed(int64)               {}
func NewSource(s int64) Source { return rand.NewSource(s) }
func New(s Source) *Rand       { return rand.New(s) }
func Perm(n int) []int         { return rand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, zzvf.Choose("shuffle", i+1))
	}
}
