//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceOn tells whether the race detector is built in
const RaceOn = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far
func RaceErrors() int { return runtime.RaceErrors() }
