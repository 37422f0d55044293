//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// Race reports whether the race detector is built in.
const Race = true

// the scheduler's own hand-overs must not order the accesses of the threads
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Acquire and Release are the ordering that the shimmed synchronization really gives.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
