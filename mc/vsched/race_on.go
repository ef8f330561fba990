//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// Race says whether the race detector is compiled in.
const Race = true

func raceDisable()                  { runtime.RaceDisable() }
func raceEnable()                   { runtime.RaceEnable() }
func RaceErrors() int               { return runtime.RaceErrors() }
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
