package simrt

import "strings"

// The instrumented packages register how their package-level variables and
// init functions came about, so that every run, and every simulated process
// of a command, begins with a freshly initialised program.

type pkgState struct {
	path string
	fs   []func()
	off  []bool
}

var pkgStates []*pkgState

// RegisterPkg is called by the instrumented packages, in the order of their
// initialisation.
func RegisterPkg(path string, fs ...func()) {
	pkgStates = append(pkgStates, &pkgState{path, fs, make([]bool, len(fs))})
}

// ResetPackages initialises the packages below the commands afresh.
func ResetPackages() {
	for _, p := range pkgStates {
		if !strings.Contains(p.path, "/cmd/") {
			p.reset()
		}
	}
}

// ResetCommand initialises the packages of one command afresh.
func ResetCommand(name string) {
	for _, p := range pkgStates {
		if strings.HasSuffix(p.path, "/cmd/"+name) {
			p.reset()
		}
	}
}

func (p *pkgState) reset() {
	for i, f := range p.fs {
		if !p.off[i] {
			p.one(i, f)
		}
	}
}

// one executes one initialisation. What cannot be done twice in one process
// (registering with a library, say) keeps its state.
func (p *pkgState) one(i int, f func()) {
	defer func() {
		if aborting {
			return
		}
		if recover() != nil {
			p.off[i] = true
		}
	}()
	f()
}
