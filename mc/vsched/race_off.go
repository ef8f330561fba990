//go:build !race

package vsched

import "unsafe"

// Race says whether the race detector is compiled in.
const Race = false

func raceDisable()                  {}
func raceEnable()                   {}
func RaceErrors() int               { return 0 }
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
