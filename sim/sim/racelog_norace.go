//go:build !race

package sim

const raceOn = false

func raceErrors() int { return 0 }
