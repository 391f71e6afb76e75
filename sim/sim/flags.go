package sim

import (
	"flag"
	"os"

	"verif/simrt"
)

// flagReset starts a command as a process of its own: its package variables
// are initialised afresh, every flag has its default value again, and a wrong
// usage panics instead of ending the simulator.
func flagReset(name string, args []string) {
	os.Args = append([]string{name}, args...)
	flag.CommandLine = flag.NewFlagSet(name, flag.PanicOnError)
	flag.CommandLine.SetOutput(os.Stderr)
	simrt.ResetCommand(name)
}
