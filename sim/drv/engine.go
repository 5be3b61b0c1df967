package main

import (
	"time"

	"verif.sim/rt"
)

var localZone = time.FixedZone("here", 9*3600)

// runCase runs a case of any kind
func runCase(c *Case, st *Stats) *Violation {
	fixed := time.Date(2024, 2, 29, 23, 30, 0, 0, time.UTC)
	// In the local zone it is the next day already, so a date says which
	// of the zones it is of
	time.Local = localZone
	rt.SetClock(func() time.Time { return fixed.In(time.Local) })
	rt.SetZones(nil)
	defer rt.SetClock(nil)
	switch c.Kind {
	case "hist":
		return runHist(c, st)
	case "conc":
		return runConc(c, st)
	case "clock":
		return runClock(c, st)
	case "maps":
		return runMaps(c, st)
	case "text":
		return runText(c, st)
	case "rset":
		return runRset(c, st)
	}
	panic("kind " + c.Kind)
}

// genCase makes the i-th case of a search
func genCase(prop, variant string, seed uint64, i int, race bool) *Case {
	s := mix(mix(seed, hashStr(prop+variant)), uint64(i))
	switch prop {
	case "C01", "C02", "C04":
		c := genConc(prop, variant, s)
		if race {
			c.NoRef = true
		}
		return c
	}
	switch variant {
	case "clock":
		return genClock(s)
	case "maps", "unions":
		return genMaps(variant, s)
	case "text":
		return genText(s)
	case "conc":
		return genConc(prop, variant, s)
	case "rset":
		return genRset(s)
	}
	return genHist(prop, s, profileOf(prop))
}
