//go:build race

package vsync

import (
	"runtime"
	"unsafe"
)

const RaceOn = true

func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceOff()                          { runtime.RaceDisable() }
func raceOnAgain()                      { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
