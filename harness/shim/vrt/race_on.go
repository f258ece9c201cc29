//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// SimRace tells whether the race detector watches.
const SimRace = true

func SimRaceOff()                     { runtime.RaceDisable() }
func SimRaceOn()                      { runtime.RaceEnable() }
func SimRaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func SimRaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
