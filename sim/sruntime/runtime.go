// Package sruntime replaces package runtime in the instrumented code: how many
// processors there are is part of the simulated machine.
package sruntime

import (
	"runtime"

	"verifsim/simrt"
)

func NumCPU() int { return simrt.CPUs() }

func GOMAXPROCS(n int) int { return simrt.CPUs() }

func NumGoroutine() int { return simrt.Tasks() }

func Gosched() { simrt.Op("gosched") }

func Goexit() { runtime.Goexit() }
