// Command vsim runs simulations: as a worker over a range of seeds, once for a
// given spec, or as the check of a property.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"verif/ref"
	"verif/sim"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim work|once|check|replay|gen ...")
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "work":
		work(os.Args[2:])
	case "once":
		once()
	case "check":
		runtime.GOMAXPROCS(4)
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "gen":
		n, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(sim.Gen(os.Args[2], n), "", " ")
		fmt.Println(string(b))
	case "selftest":
		if err := ref.SelfTest(); err != nil {
			fmt.Println("reference self-test failed:", err)
			os.Exit(2)
		}
		fmt.Println("reference self-test ok")
	default:
		os.Exit(2)
	}
}

// Summary is what a worker reports about its seeds.
type Summary struct {
	Runs       int
	Ops        int
	Steps      int64
	SimNS      float64
	Switches   int64
	Preempts   int64
	Jumps      int64
	Faults     map[string]int
	Probes     map[string]int
	Incon      int
	Hashes     []uint64
	Nontrivial int
	Known      map[string]int
	Sample     []string
	Viol       *Violation
	Races      int
	Exits      int
}

// Violation is a run that broke the property.
type Violation struct {
	Seed     uint64
	Findings []sim.Finding
	Hash     uint64
}

func newSummary() *Summary {
	return &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
}

func nontrivial(r *sim.RunResult) bool {
	if r.Ops == 0 {
		return false
	}
	return r.Out.Switches > int64(r.Out.Tasks) || len(r.Faults) > 0 || r.Out.Preempts > 0
}

func work(args []string) {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	from := fs.Uint64("from", 0, "")
	n := fs.Int("n", 1, "")
	base := fs.Uint64("base", 0, "")
	det := fs.Bool("det", false, "execute every run twice and compare")
	fs.Parse(args)
	isolate()
	sim.Fresh = fresh
	sum := newSummary()
	out := protoOut
	for i := 0; i < *n; i++ {
		seed := *from + uint64(i)
		fmt.Fprintf(out, "S %d\n", seed)
		s := sim.Gen(*prop, *base+seed)
		r := sim.Execute(s)
		if *det {
			r2 := sim.Execute(sim.Gen(*prop, *base+seed))
			if r2.Out.Hash != r.Out.Hash || r2.HistHash != r.HistHash || r2.Out.Steps != r.Out.Steps {
				fmt.Fprintf(out, "D %d\n", seed)
				fmt.Fprintf(out, "X seed %d: schedule %x %x, history %x %x, steps %d %d\n", seed, r.Out.Hash, r2.Out.Hash, r.HistHash, r2.HistHash, r.Out.Steps, r2.Out.Steps)
				for k := 0; k < len(r.Trace) || k < len(r2.Trace); k++ {
					a, b := "", ""
					if k < len(r.Trace) {
						a = r.Trace[k]
					}
					if k < len(r2.Trace) {
						b = r2.Trace[k]
					}
					if a != b {
						fmt.Fprintf(out, "X %.600q\nX %.600q\n", a, b)
					}
				}
			}
		}
		sum.Runs++
		sum.Ops += r.Ops
		sum.Steps += r.Out.Steps
		sum.SimNS += float64(r.Out.Clock)
		sum.Switches += r.Out.Switches
		sum.Preempts += r.Out.Preempts
		sum.Jumps += r.Out.Jumps
		sum.Incon += r.Incon
		for k, v := range r.Faults {
			sum.Faults[k] += v
		}
		for k, v := range r.Probes {
			sum.Probes[k] += v
		}
		if nontrivial(r) {
			sum.Nontrivial++
			sum.Hashes = append(sum.Hashes, r.Out.Hash*31+r.HistHash)
		}
		if i == 0 {
			t := r.Trace
			if len(t) > 12 {
				t = t[:12]
			}
			sum.Sample = append([]string{fmt.Sprintf("seed %d: %d tasks, %d steps, %d switches, policy %d gap %d", seed, r.Out.Tasks, r.Out.Steps, r.Out.Switches, s.Cfg.Policy, s.Cfg.Gap)}, t...)
		}
		var bad []sim.Finding
		for _, f := range r.For(*prop) {
			if f.Known != "" {
				sum.Known[f.Known]++
				continue
			}
			bad = append(bad, f)
		}
		if len(bad) > 0 {
			sum.Viol = &Violation{Seed: seed, Findings: bad, Hash: r.Out.Hash}
			break
		}
	}
	b, _ := json.Marshal(sum)
	fmt.Fprintf(out, "R %s\n", b)
}

// OnceOut is the result of a single execution.
type OnceOut struct {
	Findings []sim.Finding
	Out      json.RawMessage
	Trace    []string
	HistHash uint64
	Faults   map[string]int
	RR       *sim.RunResult
}

func once() {
	isolate()
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(2)
	}
	var s sim.Spec
	if err := json.Unmarshal(b, &s); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for i := range s.Warm {
		sim.Once(&s.Warm[i])
	}
	s.Warm = nil
	sim.Fresh = fresh
	var r *sim.RunResult
	if os.Getenv("VSIM_PLAIN") != "" {
		r = sim.Once(&s)
	} else {
		r = sim.Execute(&s)
	}
	j, _ := json.Marshal(r)
	fmt.Fprintf(protoOut, "R %s\n", j)
}

var protoOut io.Writer = os.Stdout

func readResult(rd io.Reader) (line string, seeds []uint64, nondet []uint64) {
	sc := bufio.NewReaderSize(rd, 1<<20)
	for {
		l, err := sc.ReadString('\n')
		l = strings.TrimRight(l, "\n")
		switch {
		case strings.HasPrefix(l, "R "):
			line = l[2:]
		case strings.HasPrefix(l, "S "):
			if n, e := strconv.ParseUint(l[2:], 10, 64); e == nil {
				seeds = append(seeds, n)
			}
		case strings.HasPrefix(l, "D "):
			if n, e := strconv.ParseUint(l[2:], 10, 64); e == nil {
				nondet = append(nondet, n)
			}
		}
		if err != nil {
			return
		}
	}
}
