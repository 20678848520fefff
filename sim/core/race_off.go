//go:build !race

package core

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// Races returns nothing without the race detector.
func Races() []string { return nil }
