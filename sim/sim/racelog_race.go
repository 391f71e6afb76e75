//go:build race

package sim

import "runtime"

const raceOn = true

func raceErrors() int { return runtime.RaceErrors() }
