//go:build race

package rt

import "runtime"

const RaceBuild = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceCount is the number of data races reported so far.
func RaceCount() int { return runtime.RaceErrors() }
