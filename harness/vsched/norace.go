//go:build !race

package vsched

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}
