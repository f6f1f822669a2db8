//go:build !race

package rt

const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceCount is the number of data races reported so far.
func RaceCount() int { return 0 }
