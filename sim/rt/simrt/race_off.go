//go:build !race
// +build !race

package simrt

import "unsafe"

// RaceEnabled tells whether the race detector is compiled in.
const RaceEnabled = false

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }

func RaceAcquire(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
