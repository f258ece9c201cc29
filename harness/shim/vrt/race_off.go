//go:build !race

package vrt

import "unsafe"

// SimRace tells whether the race detector watches.
const SimRace = false

func SimRaceOff()                     {}
func SimRaceOn()                      {}
func SimRaceAcquire(p unsafe.Pointer) {}
func SimRaceRelease(p unsafe.Pointer) {}
