//go:build !race

package vsched

import "unsafe"

// RaceOn tells whether the race detector is built in
const RaceOn = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of races reported so far
func RaceErrors() int { return 0 }
