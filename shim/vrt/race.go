//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// The Go race detector sees the synchronisation of the code under test and not that of the scheduler.

var ends [64]int

func HBAcq(p *int)  { runtime.RaceAcquire(unsafe.Pointer(p)) }
func HBRel(p *int)  { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func HBFork(id int) {}
func HBJoin(id int) { runtime.RaceAcquire(unsafe.Pointer(&ends[id])) }
func HBEnd(id int)  { runtime.RaceReleaseMerge(unsafe.Pointer(&ends[id])) }
func Race()         {}
func raceOff()      { runtime.RaceDisable() }
func raceOn()       { runtime.RaceEnable() }
