//go:build !race

package vsync

import "unsafe"

const RaceOn = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceOff()                          {}
func raceOnAgain()                      {}

// RaceErrors is always zero without the race detector.
func RaceErrors() int { return 0 }
