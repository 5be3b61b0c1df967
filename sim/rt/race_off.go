//go:build !race

package rt

// RaceEnabled tells if this is a race enabled build
const RaceEnabled = false

func raceDisable()    {}
func raceEnable()     {}
func raceErrors() int { return 0 }
