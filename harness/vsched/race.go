//go:build race

package vsched

import "runtime"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
