//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the happens-before tracking of the race detector is
// compiled in. Packages under verifsim are compiled without instrumentation; the
// code under test is compiled with it.
const RaceBuild = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }
