//go:build !race

package simhook

import "unsafe"

// Race tells whether the build detects races.
const Race = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceErrors() int              { return 0 }
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
