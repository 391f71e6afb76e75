// Package sim holds the scenarios: what a run consists of (Spec), how it is
// generated from a seed, how it is executed against the real code under simrt,
// and the oracles over what happened.
package sim

import (
	"encoding/json"
	"sort"

	"verif/simrt"
)

// Dev is a registration.
type Dev struct {
	Alg  string `json:"alg"`
	Type string `json:"type,omitempty"`
	BDK  string `json:"bdk"`
	KSN  string `json:"ksn"`
	Pre  bool   `json:"pre,omitempty"` // registered before the run starts
}

// Net is the fate of one REST request.
type Net struct {
	Delay    int64  `json:"delay,omitempty"`     // request delay
	Dup      int    `json:"dup,omitempty"`       // extra copies
	DupDelay int64  `json:"dup_delay,omitempty"` // delay of the copies
	DropReq  bool   `json:"drop_req,omitempty"`
	DropResp bool   `json:"drop_resp,omitempty"`
	Cut      int    `json:"cut,omitempty"`   // connection dies after this many bytes
	Flip     []int  `json:"flip,omitempty"`  // byte positions corrupted
	Chunk    int    `json:"chunk,omitempty"` // bytes per segment
	Pace     int64  `json:"pace,omitempty"`  // time between segments
	StallAt  int    `json:"stall_at,omitempty"`
	StallFor int64  `json:"stall_for,omitempty"`
	RStall   int64  `json:"rstall,omitempty"` // client stalls reading the response
	RDie     bool   `json:"rdie,omitempty"`   // client gone when the response is written
	Retry    int    `json:"retry,omitempty"`
	Origin   string `json:"origin,omitempty"`
}

// Op is one step of a task.
type Op struct {
	K     string `json:"k"`
	Dev   int    `json:"dev"`
	REST  bool   `json:"rest,omitempty"`
	Pin   string `json:"pin,omitempty"`
	Pan   string `json:"pan,omitempty"`
	Fmt   string `json:"fmt,omitempty"`
	Data  string `json:"data,omitempty"`
	Act   string `json:"act,omitempty"`
	Mac   string `json:"mac,omitempty"`
	IV    string `json:"iv,omitempty"`
	Ref   int    `json:"ref,omitempty"`   // 1-based index of the op in this task whose answer is used
	Fault string `json:"fault,omitempty"` // injected into this operation
	Think int64  `json:"think,omitempty"` // pause before
	Net   *Net   `json:"net,omitempty"`
	Raw   string `json:"raw,omitempty"`  // raw request bytes, or an argument
	N     int    `json:"n,omitempty"`    // repetitions, lengths, choices
	M     int    `json:"m,omitempty"`    // how many clients do this at once
	Args  []int  `json:"args,omitempty"` // further choices
}

// Task is a sequence of operations.
type Task struct {
	Name string `json:"name"`
	Ops  []Op   `json:"ops"`
}

// Spec is one simulated execution.
type Spec struct {
	Prop  string           `json:"prop"`
	Kind  string           `json:"kind"`
	Seed  uint64           `json:"seed"`
	Cfg   simrt.Config     `json:"cfg"`
	Devs  []Dev            `json:"devs,omitempty"`
	Tasks []Task           `json:"tasks"`
	P     map[string]int64 `json:"p,omitempty"`
	Warm  []Spec           `json:"warm,omitempty"` // runs of the same process before this one
}

func (s *Spec) clone() *Spec {
	b, _ := json.Marshal(s)
	var c Spec
	json.Unmarshal(b, &c)
	return &c
}

// Finding is one violated property of one run.
type Finding struct {
	Prop   string `json:"prop"`
	Msg    string `json:"msg"`
	Oracle string `json:"oracle"` // stable name of the check that fired
	Known  string `json:"known,omitempty"`
}

// RunResult is what one run produced.
type RunResult struct {
	Out      simrt.Outcome
	Findings []Finding
	Faults   map[string]int
	Probes   map[string]int
	Incon    int
	Trace    []string
	Ops      int
	HistHash uint64
}

func newResult() *RunResult {
	return &RunResult{Faults: map[string]int{}, Probes: map[string]int{}}
}

func (r *RunResult) add(prop, oracle, msg string) {
	for _, f := range r.Findings {
		if f.Prop == prop && f.Oracle == oracle {
			return
		}
	}
	r.Findings = append(r.Findings, Finding{Prop: prop, Oracle: oracle, Msg: msg})
}

func (r *RunResult) addAll(props []string, oracle, msg string) {
	for _, p := range props {
		r.add(p, oracle, msg)
	}
}

// For returns the findings of one property.
func (r *RunResult) For(prop string) []Finding {
	var out []Finding
	for _, f := range r.Findings {
		if f.Prop == prop {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Oracle < out[j].Oracle })
	return out
}

// RNG is the generator's own stream.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed*0x9e3779b97f4a7c15 ^ 0x5bf03635} }
func (r *RNG) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *RNG) P(num, den int) bool    { return r.N(den) < num }
func (r *RNG) In(a, b int) int        { return a + r.N(b-a+1) }
func pickOf[T any](r *RNG, xs ...T) T { return xs[r.N(len(xs))] }

// KnownLongPin is a listed finding of C11.
const KnownLongPin = "long-pin-decode"

func (r *RunResult) known(prop, id string) {
	for _, f := range r.Findings {
		if f.Prop == prop && f.Known == id {
			return
		}
	}
	r.Findings = append(r.Findings, Finding{Prop: prop, Oracle: "known", Known: id})
}
