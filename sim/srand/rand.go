// Package srand replaces package math/rand in the instrumented code: its global
// generator is seeded by the simulation.
package srand

import (
	"math/rand"

	"verifsim/simrt"
)

type src struct{}

func (src) Int63() int64   { return int64(simrt.Rand64() >> 1) }
func (src) Uint64() uint64 { return simrt.Rand64() }
func (src) Seed(int64)     {}

func g() *rand.Rand { return rand.New(src{}) }

func Seed(int64) {}

func ExpFloat64() float64                { return g().ExpFloat64() }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func Int() int                           { return g().Int() }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Intn(n int) int                     { return g().Intn(n) }
func NormFloat64() float64               { return g().NormFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Read(p []byte) (int, error)         { return g().Read(p) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
