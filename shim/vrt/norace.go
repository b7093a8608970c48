//go:build !race

package vrt

// happens-before edges for race detection (intrinsic)
func HBAcq(p *int)  {}
func HBRel(p *int)  {}
func HBFork(id int) {}
func HBEnd(id int)  {}
func HBJoin(id int) {}

// Race turns on the race detector (intrinsic).
func Race() {}

func raceOff() {}
func raceOn()  {}
