//go:build !race

package main

const raceBuild = false

func raceLog() string { return "" }
