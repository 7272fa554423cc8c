//go:build race

package simhook

import (
	"runtime"
	"unsafe"
)

// Race tells whether the build detects races.
const Race = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceErrors() int              { return runtime.RaceErrors() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
