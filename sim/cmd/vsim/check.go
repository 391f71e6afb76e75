package main

import (
	"bytes"
	"context"
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/ref"
	"verif/sim"
	"verif/simrt"
)

// isolate gives the protocol its own descriptor so that whatever the code
// under test prints cannot disturb it.
func isolate() {
	rand.Reader = simrt.Entropy{} // the randomness seam
	protoOut = os.Stdout
	if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = f
		if os.Getenv("VSIM_STDERR") == "" {
			os.Stderr = f
		}
	}
}

var self = func() string { p, _ := os.Executable(); return p }()

func childEnv() []string {
	e := append(os.Environ(), "GOMAXPROCS=1")
	if raceBuild {
		e = append(e, "GORACE=atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 log_path="+raceLog())
	}
	return e
}

// onceIn executes a spec in a fresh process.
func onceIn(s *sim.Spec, plain bool, limit time.Duration) (*sim.RunResult, error) {
	b, _ := json.Marshal(s)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, self, "once")
	c.Stdin = bytes.NewReader(b)
	c.Env = childEnv()
	if plain {
		c.Env = append(c.Env, "VSIM_PLAIN=1")
	}
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	line, _, _ := readResult(&out)
	if line == "" {
		if err == nil {
			err = fmt.Errorf("no result")
		}
		t := errb.String()
		if len(t) > 1500 {
			t = t[:1500]
		}
		return nil, fmt.Errorf("%v: %s", err, t)
	}
	var r sim.RunResult
	if e := json.Unmarshal([]byte(line), &r); e != nil {
		return nil, e
	}
	return &r, nil
}

func fresh(s *sim.Spec) *sim.RunResult {
	r, err := onceIn(s, true, 60*time.Second)
	if err != nil {
		return &sim.RunResult{}
	}
	return r
}

type knownEntry struct {
	Prop, ID, Text string
}

func loadKnown(path string) (ks []knownEntry) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownEntry
		f := strings.Fields(l)
		for i, x := range f {
			if strings.HasPrefix(x, "property=") {
				k.Prop = x[9:]
			}
			if strings.HasPrefix(x, "id=") {
				k.ID = x[3:]
				k.Text = strings.Join(f[i+1:], " ")
			}
		}
		ks = append(ks, k)
	}
	return
}

type replayFile struct {
	Property string        `json:"property"`
	Findings []sim.Finding `json:"findings"`
	Hash     uint64        `json:"schedule_hash"`
	Hist     uint64        `json:"history_hash"`
	Steps    int64         `json:"steps"`
	Spec     *sim.Spec     `json:"spec"`
	Trace    []string      `json:"trace"`
	Note     string        `json:"note"`
}

type job struct{ from, n uint64 }

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	runs := fs.Int("runs", 1000, "")
	chunk := fs.Int("chunk", 50, "runs per worker process")
	limit := fs.Duration("limit", 60*time.Second, "stop starting chunks after this")
	outDir := fs.String("out", "", "evidence directory")
	knownF := fs.String("known", "", "")
	minLimit := fs.Duration("min", 60*time.Second, "time for minimisation")
	jobs := fs.Int("j", runtime.NumCPU(), "")
	det := fs.Bool("det", false, "")
	fs.Parse(args)
	start := time.Now()
	if err := ref.SelfTest(); err != nil {
		fmt.Println("reference model self-test failed:", err)
		return 2
	}
	known := loadKnown(*knownF)
	isKnown := func(id string) bool {
		for _, k := range known {
			if k.Prop == *prop && k.ID == id {
				return true
			}
		}
		return false
	}
	base := *seed * 1_000_003_000
	total := newSummary()
	distinct := map[uint64]bool{}
	var samples []any
	var mu sync.Mutex
	var viol *Violation
	var errs []string
	var crashes []uint64
	var nondet []uint64
	next := uint64(0)
	detLeft := 2 // chunks executed twice
	deadline := start.Add(*limit)
	var wg sync.WaitGroup
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if viol != nil || len(errs) > 3 || len(crashes) > 0 || next >= uint64(*runs) || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				from := next
				n := uint64(*chunk)
				if from+n > uint64(*runs) {
					n = uint64(*runs) - from
				}
				next += n
				dd := *det || detLeft > 0
				detLeft--
				mu.Unlock()
				ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
				a := []string{"work", "-prop", *prop, "-base", fmt.Sprint(base), "-from", fmt.Sprint(from), "-n", fmt.Sprint(n)}
				if dd {
					a = append(a, "-det")
				}
				c := exec.CommandContext(ctx, self, a...)
				c.Env = childEnv()
				var out, eb bytes.Buffer
				c.Stdout = &out
				c.Stderr = &eb
				err := c.Run()
				cancel()
				line, seeds, nd := readResult(&out)
				mu.Lock()
				nondet = append(nondet, nd...)
				if line == "" {
					if len(seeds) > 0 {
						crashes = append(crashes, seeds[len(seeds)-1])
					}
					t := eb.String()
					if len(t) > 2000 {
						t = t[:2000]
					}
					errs = append(errs, fmt.Sprintf("worker at seeds %d+%d: %v %s", from, n, err, t))
					mu.Unlock()
					return
				}
				var s Summary
				if e := json.Unmarshal([]byte(line), &s); e != nil {
					errs = append(errs, e.Error())
					mu.Unlock()
					return
				}
				merge(total, &s)
				for _, h := range s.Hashes {
					distinct[h] = true
				}
				if len(samples) < 3 {
					samples = append(samples, s.Sample)
				}
				if s.Viol != nil && (viol == nil || s.Viol.Seed < viol.Seed) {
					viol = s.Viol
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	simWall := time.Since(start).Seconds()

	code := 0
	nviol := 0
	if len(nondet) > 0 && viol == nil {
		fmt.Println("ERROR: executions of the same seed differ:", nondet)
		code = 3
	}
	if viol != nil {
		nviol = 1
		rf, err := settle(*prop, base, viol.Seed, uint64(*chunk), *minLimit)
		if err != nil {
			fmt.Println("ERROR: a violation could not be reproduced in a fresh process:", err)
			for _, f := range viol.Findings {
				fmt.Println("  ", f.Oracle, f.Msg)
			}
			code = 3
		} else {
			dir := filepath.Join(*outDir, "replay")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, viol.Seed))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(p, b, 0o644)
			for _, f := range rf.Findings {
				fmt.Printf("%s [%s] %s\n", f.Prop, f.Oracle, f.Msg)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			code = 1
		}
	} else if len(crashes) > 0 {
		code = settleCrash(*prop, base, crashes[0], *outDir, errs)
		if code == 1 {
			nviol = 1
		}
	} else if len(errs) > 0 {
		fmt.Println("ERROR:", strings.Join(errs, "\n"))
		code = 3
	}
	for k := range total.Known {
		if !isKnown(k) && code != 1 {
			fmt.Printf("ERROR: finding %s is not listed\n", k)
			code = 3
		}
	}
	if code == 0 {
		for _, k := range known {
			if k.Prop == *prop {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Prop, k.Text)
			}
		}
	}
	wall := time.Since(start).Seconds()
	sd := int64(*seed)
	cov := map[string]any{
		"evaluations":            total.Runs,
		"distinct_nontrivial":    len(distinct),
		"rule":                   ruleFor(*prop),
		"samples":                samples,
		"simulated_runs":         total.Runs,
		"runs_per_hour":          int64(float64(total.Runs) / simWall * 3600),
		"seeds_per_hour":         int64(float64(total.Runs) / simWall * 3600),
		"operations":             total.Ops,
		"scheduling_points":      total.Steps,
		"context_switches":       total.Switches,
		"preemptions":            total.Preempts,
		"clock_jumps":            total.Jumps,
		"simulated_seconds":      total.SimNS / 1e9,
		"faults_injected":        total.Faults,
		"probes":                 total.Probes,
		"inconclusive_histories": total.Incon,
		"distinct_interleavings": len(distinct),
		"distinctness_measure":   "hash of the sequence of (task handing over, source location, task taking over) of the run, combined with a hash of the recorded history",
		"determinism_rechecks":   min(2**chunk, total.Runs),
		"nondeterministic_seeds": len(nondet),
		"known_findings_seen":    total.Known,
		"components_real":        realFor(*prop),
		"components_simulated":   stubFor(*prop),
		"seed_base":              base,
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": sd, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"scheduling points lie at the statements of /repo's packages; code of other packages runs between them without interruption",
			"the reference model (own implementation of ANS X9.24-1:2009 and X9.24-3:2017, self-tested against published vectors at the start of the check) is right",
			"a clean batch is evidence over the seeds explored, not proof",
		},
	}
	if samples == nil {
		cov["samples"] = []any{"none"}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(*outDir, 0o755)
	os.WriteFile(filepath.Join(*outDir, *prop+".json"), append(b, '\n'), 0o644)
	var fk []string
	for k := range total.Faults {
		fk = append(fk, fmt.Sprintf("%s=%d", k, total.Faults[k]))
	}
	sort.Strings(fk)
	fmt.Printf("%s: %d runs, %d ops, %d distinct interleavings, %.0f simulated s, %d inconclusive, %.1f s; faults: %s\n", *prop, total.Runs, total.Ops, len(distinct), total.SimNS/1e9, total.Incon, wall, strings.Join(fk, ", "))
	return code
}

func merge(t, s *Summary) {
	t.Runs += s.Runs
	t.Ops += s.Ops
	t.Steps += s.Steps
	t.SimNS += s.SimNS
	t.Switches += s.Switches
	t.Preempts += s.Preempts
	t.Jumps += s.Jumps
	t.Incon += s.Incon
	t.Nontrivial += s.Nontrivial
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Known {
		t.Known[k] += v
	}
}

func unknownFor(r *sim.RunResult, prop string) []sim.Finding {
	var out []sim.Finding
	for _, f := range r.For(prop) {
		if f.Known == "" {
			out = append(out, f)
		}
	}
	return out
}

// settle makes a violation reproducible: fresh process, explicit schedule,
// minimised, executed twice with equal results.
func settle(prop string, base, seed, chunk uint64, limit time.Duration) (*replayFile, error) {
	end := time.Now().Add(limit)
	spec := sim.Gen(prop, base+seed)
	try := func(s *sim.Spec) *sim.RunResult {
		r, err := onceIn(s, false, 120*time.Second)
		if err != nil || len(unknownFor(r, prop)) == 0 {
			return nil
		}
		return r
	}
	r := try(spec)
	if r == nil {
		// it depends on what the process did before
		first := seed - seed%chunk
		for x := first; x < seed; x++ {
			spec.Warm = append(spec.Warm, *sim.Gen(prop, base+x))
		}
		if r = try(spec); r == nil {
			// comparison runs are part of the history too
			return nil, fmt.Errorf("seed %d", seed)
		}
		for n := (len(spec.Warm) + 1) / 2; n >= 1 && time.Now().Before(end); {
			shrunk := false
			for i := 0; i < len(spec.Warm); i += n {
				c := *spec
				c.Warm = append(append([]sim.Spec{}, spec.Warm[:i]...), spec.Warm[min(i+n, len(spec.Warm)):]...)
				if x := try(&c); x != nil {
					*spec, r, shrunk = c, x, true
					break
				}
			}
			if !shrunk {
				if n == 1 {
					break
				}
				n = (n + 1) / 2
			}
		}
	}
	// explicit schedule
	exp := *spec
	exp.Cfg.Explicit = true
	exp.Cfg.Sched = r.Out.Sched
	if x := try(&exp); x != nil {
		*spec, r = exp, x
		m := &minimiser{prop: prop, end: end, try: try}
		spec, r = m.minimise(spec, r)
	}
	// final double execution
	a, b := try(spec), try(spec)
	if a == nil || b == nil || a.Out.Hash != b.Out.Hash || a.HistHash != b.HistHash || a.Out.Steps != b.Out.Steps {
		return nil, fmt.Errorf("seed %d: replays differ", seed)
	}
	t := a.Trace
	if len(t) > 400 {
		t = t[:400]
	}
	return &replayFile{Property: prop, Findings: unknownFor(a, prop), Hash: a.Out.Hash, Hist: a.HistHash, Steps: a.Out.Steps, Spec: spec, Trace: t,
		Note: "execute with ./check replay FILE (from /verif); the run is exactly repeatable"}, nil
}

// settleCrash deals with a simulated run that ended its whole process.
func settleCrash(prop string, base, seed uint64, outDir string, errs []string) int {
	spec := sim.Gen(prop, base+seed)
	_, e1 := onceIn(spec, true, 120*time.Second)
	_, e2 := onceIn(spec, true, 120*time.Second)
	if e1 != nil && e2 != nil && crashDecides[prop] {
		rf := &replayFile{Property: prop, Spec: spec, Findings: []sim.Finding{{Prop: prop, Oracle: "process-crash", Msg: e1.Error()}}, Note: "the process itself ends"}
		dir := filepath.Join(outDir, "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, seed))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s [process-crash] %v\n", prop, e1)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		return 1
	}
	fmt.Println("ERROR: a worker process ended unexpectedly:", strings.Join(errs, "\n"), e1)
	return 3
}

var crashDecides = map[string]bool{"C09": true, "C16": true}

func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := onceIn(rf.Spec, false, 300*time.Second)
	if err != nil {
		if len(rf.Findings) == 1 && rf.Findings[0].Oracle == "process-crash" {
			fmt.Println("reproduced: the process ends:", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
			return 1
		}
		fmt.Println(err)
		return 2
	}
	for _, t := range r.Trace {
		fmt.Println("  ", t)
	}
	fs := unknownFor(r, rf.Property)
	for _, f := range fs {
		fmt.Printf("%s [%s] %s\n", f.Prop, f.Oracle, f.Msg)
	}
	if len(fs) == 0 {
		fmt.Println("the violation does not occur")
		return 0
	}
	if r.Out.Hash == rf.Hash && r.HistHash == rf.Hist && r.Out.Steps == rf.Steps {
		fmt.Println("reproduced exactly: schedule, history and steps are equal")
	} else {
		fmt.Println("reproduced, but not the same execution (the code has changed)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	return 1
}

var _ = io.EOF
