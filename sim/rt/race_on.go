//go:build race

package rt

import "runtime"

// RaceEnabled tells if this is a race enabled build
const RaceEnabled = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceErrors() int { return runtime.RaceErrors() }
