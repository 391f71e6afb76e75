//go:build race

package main

import (
	"os"
	"path/filepath"
)

const raceBuild = true

// raceLog is where the race runtime of a child writes its reports.
func raceLog() string { return filepath.Join(filepath.Dir(self), "race", "log") }

func init() { os.MkdirAll(filepath.Dir(raceLog()), 0o755) }
