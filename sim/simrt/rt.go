// Package simrt is the deterministic simulator: a scheduler of cooperative
// tasks, a simulated clock and the channel, goroutine and process primitives
// the instrumented code of /repo is routed to.
//
// Exactly one task runs at a time. The hand-over is a plain variable read in
// functions the race detector does not see, so a -race build observes only the
// synchronisation of the program itself while the schedule stays ours.
package simrt

import (
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"
)

// Sites and Pkgs describe the scheduling points (filled by generated code).
var Sites []string
var Pkgs []string

const (
	stEmbryo = iota
	stRunnable
	stBlocked
	stSleeping
	stDone
)

// Waiter tells whether a blocked task may continue.
type Waiter interface{ Ready() bool }

// Task is one simulated thread of control.
type Task struct {
	ID     int
	Name   string
	state  int
	w      Waiter
	why    string
	wake   int64
	local  int64 // scheduling points passed by this task
	hookAt int64 // ... after which hook is called
	hook   func()
	run    int64 // scheduling points since it was last switched to
	prio   int64
	Daemon bool
	NoPre  int // >0: do not preempt
	Data   any
	parked bool // exited (os.Exit), waits for teardown
	fn     func()
	site   int
	code   bool // started by the code under test
}

// Switch is a recorded scheduling decision that deviates from the default:
// when Task has passed Step scheduling points it hands over to To.
type Switch struct {
	Task int   `json:"t"`
	Step int64 `json:"n"`
	To   int   `json:"to"`
}

// Policies.
const (
	PolUniform = 0 // preempt at geometrically distributed gaps
	PolPCT     = 1 // random priorities with change points
	PolBlock   = 2 // switch only where a task blocks
)

// Config of one run.
type Config struct {
	Seed     uint64   `json:"seed"`
	Policy   int      `json:"policy"`
	Gap      int      `json:"gap"`     // uniform: mean gap
	Depth    int      `json:"depth"`   // PCT: number of change points
	Horizon  int      `json:"horizon"` // PCT: steps the change points fall in
	Mask     uint64   `json:"mask"`    // packages (bit) where preemption is allowed; 0 = all
	Explicit bool     `json:"explicit"`
	Sched    []Switch `json:"sched,omitempty"`
	MaxSteps int64    `json:"max_steps"`
	StepNS   int64    `json:"step_ns"`
}

// Outcome of one run.
type Outcome struct {
	Deadlock  string
	StepLimit bool
	Crash     string // unrecovered panic in a task
	Exited    bool
	ExitCode  int
	ExitTime  int64
	Steps     int64
	Clock     int64
	Switches  int64
	Preempts  int64
	Jumps     int64 // clock jumps
	Hash      uint64
	Sched     []Switch
	Tasks     int
}

var (
	active   bool
	aborting bool
	cur      *Task
	tasks    []*Task
	alive    []*Task // the tasks that have not ended, and some that have
	ended    int     // how many of those have
	driver   = &Task{ID: -1, Name: "driver"}
	cfg      Config
	out      Outcome
	clock    int64
	steps    int64
	nextPre  int64
	lastID   int
	rs       uint64 // schedule stream
	re       uint64 // environment stream
	rn       uint64 // entropy stream
	pctLeft  []int64
	schedPos []int
	perTask  [][]Switch
	Epoch    uint64
	wg       sync.WaitGroup
	endRun   bool
	loPrio   int64
	// EntropyFail, when set, decides whether a read of randomness fails now.
	EntropyFail func() bool
	EntropyHits int64
	OnExit      func(code int)
	// Setup, when set, is what the next run begins with: it has the run to
	// itself (but for goroutines it starts) until it is finished. When it
	// reports false the run ends there.
	Setup func() bool
	// SetupSteps is the number of scheduling points Setup passed.
	SetupSteps int64
)

const fairness = 40000

//go:norace
func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func rnd(s *uint64, n int) int {
	if n <= 1 {
		return 0
	}
	return int(splitmix(s) % uint64(n))
}

// EnvRand draws from the environment stream.
//
//go:norace
func EnvRand(n int) int { return rnd(&re, n) }

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active && !aborting }

// Aborting reports that the run is being torn down.
//
//go:norace
func Aborting() bool { return aborting }

// Cur returns the running task.
//
//go:norace
func Cur() *Task { return cur }

// Now is the simulated time in nanoseconds since the start of the run.
//
//go:norace
func Now() int64 { return clock }

// Steps is the number of scheduling points passed so far.
//
//go:norace
func Steps() int64 { return steps }

//go:norace
func gap() int64 {
	g := cfg.Gap
	if g <= 1 {
		return 1
	}
	// geometric with mean g
	n := int64(1)
	for rnd(&rs, g) != 0 && n < int64(g)*20 {
		n++
	}
	return n
}

//go:norace
func setNext() {
	if cfg.Explicit {
		nextPre = 0
		return
	}
	switch cfg.Policy {
	case PolUniform:
		nextPre = steps + gap()
	case PolPCT:
		if len(pctLeft) > 0 {
			nextPre = pctLeft[0]
			pctLeft = pctLeft[1:]
		} else {
			nextPre = 1 << 62
		}
	default:
		nextPre = 1 << 62
	}
}

// Y is a scheduling point.
//
//go:norace
func Y(id int) {
	if !active || aborting {
		return
	}
	t := cur
	steps++
	t.local++
	t.run++
	clock += cfg.StepNS
	t.site = id
	if t.hookAt == t.local {
		t.hook()
	}
	if t.NoPre > 0 {
		return
	}
	if steps < nextPre && t.run < fairness && steps < cfg.MaxSteps {
		return
	}
	slow(t, id)
}

//go:norace
func slow(t *Task, id int) {
	if steps >= cfg.MaxSteps {
		out.StepLimit = true
		stopRun()
		park(t)
		return
	}
	if t.run >= fairness {
		t.run = 0
		if def := nextRunnable(t.ID); def != nil && def != t {
			n := def
			if cfg.Explicit {
				if x := explicit(t); x != nil {
					n = x
				}
			} else if cfg.Policy == PolPCT {
				loPrio--
				t.prio = loPrio
				n = pickPrio(t)
			}
			record(t, n, def)
			switchTo(t, n)
		}
		return
	}
	if cfg.Explicit {
		if x := explicit(t); x != nil && x != t {
			out.Preempts++
			record(t, x, t)
			switchTo(t, x)
		}
		return
	}
	// seeded preemption
	if cfg.Mask != 0 && cfg.Mask&(1<<uint(id>>16)) == 0 {
		nextPre = steps + 1
		return
	}
	setNext()
	var n *Task
	if cfg.Policy == PolPCT {
		loPrio--
		t.prio = loPrio
		n = pickPrio(t)
	} else {
		n = pickUniform(t)
	}
	if n != nil && n != t {
		out.Preempts++
		record(t, n, t)
		switchTo(t, n)
	}
}

// explicit is the task the given schedule hands over to at this point, if any.
//
//go:norace
func explicit(t *Task) *Task {
	q := perTaskOf(t.ID)
	for schedPos[t.ID] < len(q) && q[schedPos[t.ID]].Step < t.local {
		schedPos[t.ID]++
	}
	if schedPos[t.ID] < len(q) && q[schedPos[t.ID]].Step == t.local {
		to := q[schedPos[t.ID]].To
		schedPos[t.ID]++
		if to >= 0 && to < len(tasks) && isReady(tasks[to]) {
			return tasks[to]
		}
	}
	return nil
}

//go:norace
func perTaskOf(id int) []Switch {
	for id >= len(perTask) {
		perTask = append(perTask, nil)
		schedPos = append(schedPos, 0)
	}
	return perTask[id]
}

//go:norace
func isReady(t *Task) bool {
	switch t.state {
	case stRunnable:
		return true
	case stBlocked:
		return t.w != nil && t.w.Ready()
	case stSleeping:
		if t.wake <= clock {
			return true
		}
		return t.w != nil && t.w.Ready()
	}
	return false
}

//go:norace
func nextRunnable(after int) *Task {
	n := len(alive)
	lo, hi := 0, n // the first with a higher ID
	for lo < hi {
		if m := (lo + hi) / 2; alive[m].ID <= after {
			lo = m + 1
		} else {
			hi = m
		}
	}
	for i := 0; i < n; i++ {
		t := alive[(lo+i)%n]
		if isReady(t) {
			return t
		}
	}
	return nil
}

//go:norace
func pickUniform(not *Task) *Task {
	c := 0
	var sel *Task
	for _, t := range alive {
		if t != not && isReady(t) {
			c++
			if rnd(&rs, c) == 0 {
				sel = t
			}
		}
	}
	return sel
}

//go:norace
func pickPrio(_ *Task) *Task {
	var sel *Task
	for _, t := range alive {
		if isReady(t) && (sel == nil || t.prio > sel.prio) {
			sel = t
		}
	}
	return sel
}

// record notes a decision that differs from the default and updates the hash.
//
//go:norace
func record(from, to, def *Task) {
	out.Hash = (out.Hash ^ uint64(from.ID+1)*0x100000001b3 ^ uint64(to.ID+1)<<20 ^ uint64(from.site)<<32) * 0x9e3779b97f4a7c15
	out.Hash ^= out.Hash >> 29
	if to != def && from.ID >= 0 {
		out.Sched = append(out.Sched, Switch{from.ID, from.local, to.ID})
	}
}

//go:norace
func switchTo(from, to *Task) {
	if to == from {
		to.state = stRunnable
		to.run = 0
		return
	}
	out.Switches++
	to.state = stRunnable
	to.w = nil
	to.run = 0
	cur = to
	wait(from)
}

//go:norace
func wait(t *Task) {
	for cur != t {
		runtime.Gosched()
	}
	if aborting && t != driver {
		runtime.Goexit()
	}
}

// stopRun hands control to the driver, which tears the run down.
//
//go:norace
func stopRun() {
	endRun = true
}

//go:norace
func park(t *Task) {
	t.state = stBlocked
	t.w = nil
	t.parked = true
	cur = driver
	wait(t)
}

// reschedule picks the next task after t can no longer run.
//
//go:norace
func reschedule(t *Task) {
	if endRun {
		if t.state != stDone {
			t.parked = true
		}
		cur = driver
		if t.state != stDone {
			wait(t)
		}
		return
	}
	for {
		def := nextRunnable(t.ID)
		if def != nil {
			n := def
			if cfg.Explicit {
				if x := explicit(t); x != nil {
					n = x
				}
			} else if cfg.Policy == PolPCT {
				n = pickPrio(nil)
			} else {
				n = pickUniform(nil)
			}
			record(t, n, def)
			if t.state == stDone {
				out.Switches++
				n.state = stRunnable
				n.w = nil
				n.run = 0
				cur = n
				return
			}
			switchTo(t, n)
			return
		}
		// nothing ready: advance the clock to the next sleeper
		var next int64 = -1
		for _, x := range alive {
			if x.state == stSleeping && (next < 0 || x.wake < next) {
				next = x.wake
			}
		}
		if next >= 0 && liveLeft() {
			if next > clock {
				clock = next
				out.Jumps++
			}
			continue
		}
		// finished, or stuck
		if liveLeft() {
			out.Deadlock = describe()
		}
		endRun = true
		if t.state != stDone {
			t.parked = true
		}
		cur = driver
		if t.state != stDone {
			wait(t)
		}
		return
	}
}

//go:norace
func liveLeft() bool {
	for _, x := range alive {
		if !x.Daemon && x.state != stDone && !x.parked {
			return true
		}
	}
	return false
}

//go:norace
func describe() string {
	s := ""
	for _, x := range alive {
		if x.state == stBlocked && !x.parked {
			if s != "" {
				s += "; "
			}
			s += x.Name + " blocked in " + x.why
			if id := x.site & 0xffff; x.site != 0 && id < len(Sites) {
				s += " at " + Sites[id]
			}
		}
	}
	return s
}

// Block suspends the running task until w is ready.
//
//go:norace
func Block(w Waiter, why string) {
	if !Active() {
		return
	}
	t := cur
	if w != nil && w.Ready() {
		return
	}
	t.local++
	t.state = stBlocked
	t.w = w
	t.why = why
	reschedule(t)
}

// BlockUntil suspends until w is ready or the simulated time at comes.
// It reports whether w was ready.
//
//go:norace
func BlockUntil(w Waiter, at int64, why string) bool {
	if !Active() {
		return false
	}
	t := cur
	if w != nil && w.Ready() {
		return true
	}
	if clock >= at {
		return false
	}
	t.local++
	t.state = stSleeping
	t.w = w
	t.wake = at
	t.why = why
	reschedule(t)
	return w != nil && w.Ready()
}

// Sleep suspends the running task for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	if !Active() {
		return
	}
	if d <= 0 {
		Gosched()
		return
	}
	BlockUntil(nil, clock+d, "sleep")
}

// Gosched lets another task run.
//
//go:norace
func Gosched() {
	if !Active() {
		return
	}
	t := cur
	t.local++
	steps++
	if steps >= cfg.MaxSteps {
		out.StepLimit = true
		stopRun()
		park(t)
		return
	}
	t.state = stRunnable
	if cfg.Policy == PolPCT && !cfg.Explicit {
		loPrio--
		t.prio = loPrio
	}
	reschedule(t)
}

// BlockForever never returns.
//
//go:norace
func BlockForever() {
	if !Active() {
		select {}
	}
	Block(never{}, "select{}")
}

type never struct{}

//go:norace
func (never) Ready() bool { return false }

//go:norace
func newTask(name string, fn func()) *Task {
	t := &Task{ID: len(tasks), Name: name, fn: fn, state: stEmbryo}
	t.prio = int64(splitmix(&rs) >> 2)
	tasks = append(tasks, t)
	alive = append(alive, t)
	perTaskOf(t.ID)
	return t
}

//go:norace
func start(t *Task) {
	t.state = stRunnable
	wg.Add(1)
	go body(t)
}

//go:norace
func body(t *Task) {
	defer finish(t)
	wait(t)
	t.fn()
}

//go:norace
func finish(t *Task) {
	r := recover()
	if r != nil && !aborting {
		out.Crash = sprint(r) + "\n" + string(debug.Stack())
		endRun = true
	}
	wg.Done()
	t.state = stDone
	if ended++; ended > 16 && ended > len(alive)/2 {
		buryDone()
	}
	t.fn, t.w = nil, nil
	if t.code {
		t.Data = nil
	}
	if aborting {
		cur = driver
		return
	}
	t.local++
	reschedule(t)
}

func sprint(v any) string {
	if e, ok := v.(error); ok {
		return e.Error()
	}
	if s, ok := v.(string); ok {
		return s
	}
	return "panic"
}

// buryDone drops the tasks that have ended from the list of the others.
//
//go:norace
func buryDone() {
	k := 0
	for _, t := range alive {
		if t.state != stDone {
			alive[k] = t
			k++
		}
	}
	clear(alive[k:])
	alive, ended = alive[:k], 0
}

// Spawn starts a further task from a running one.
//
//go:norace
func Spawn(name string, daemon bool, fn func()) *Task {
	t := newTask(name, fn)
	t.Daemon = daemon
	start(t)
	return t
}

// SpawnWith is Spawn of a task that carries data.
func SpawnWith(name string, data any, fn func()) *Task {
	t := newTask(name, fn)
	t.Daemon = true
	t.Data = data
	start(t)
	return t
}

// At has f called when t passes its n-th scheduling point (n > 0).
//
//go:norace
func At(t *Task, n int64, f func()) { t.hookAt, t.hook = n, f }

// Local is the number of scheduling points t has passed.
//
//go:norace
func Local(t *Task) int64 { return t.local }

// Live is the number of tasks that have not ended.
//
//go:norace
func Live() int {
	n := 0
	for _, t := range alive {
		if t.state != stDone && !t.parked {
			n++
		}
	}
	return n
}

// Own is the memory the simulator's own bookkeeping of the run takes.
//
//go:norace
func Own() int64 {
	n := int64(cap(out.Sched))*int64(unsafe.Sizeof(Switch{})) + int64(cap(tasks)+cap(alive))*8 + int64(cap(perTask))*24 + int64(cap(schedPos))*8
	return n + int64(len(tasks))*int64(unsafe.Sizeof(Task{})+32)
}

// Done reports that a task has finished.
//
//go:norace
func (t *Task) Ready() bool { return t.state == stDone || t.parked }

// Join waits for t to finish.
//
//go:norace
func Join(t *Task) { Block(t, "join "+t.Name) }

// TaskDef is an initial task of a run.
type TaskDef struct {
	Name   string
	Daemon bool
	Fn     func()
	Data   any
}

// SchedFor prepares an explicit schedule.
//
//go:norace
func loadSched() {
	perTask = nil
	schedPos = nil
	for _, s := range cfg.Sched {
		if s.Task < 0 || s.Task > 1<<12 {
			continue
		}
		perTaskOf(s.Task)
		perTask[s.Task] = append(perTask[s.Task], s)
	}
}

// runSetup is the task a run with a Setup begins with. It starts the others
// itself, so what it did happened before anything they do.
//
//go:norace
func runSetup(f func() bool, rest []*Task) {
	ok := false
	defer func() {
		if aborting {
			return
		}
		// the change points count from here
		SetupSteps = steps
		for i := range pctLeft {
			pctLeft[i] += steps
		}
		if nextPre < 1<<61 {
			nextPre += steps
		}
		for _, t := range rest {
			if ok {
				start(t)
			} else {
				t.parked = true
			}
		}
		if !ok {
			endRun = true
		}
	}()
	ok = f()
}

// Run executes the tasks to completion under the simulator.
//
//go:norace
func Run(c Config, defs []TaskDef) Outcome {
	if c.MaxSteps == 0 {
		c.MaxSteps = 20_000_000
	}
	if c.StepNS == 0 {
		c.StepNS = 100
	}
	cfg = c
	out = Outcome{}
	Epoch++
	clock, steps, endRun, aborting = 0, 0, false, false
	tasks, alive, ended = nil, nil, 0
	loPrio = 0
	rs = c.Seed*0x9e3779b97f4a7c15 + 1
	re = c.Seed*0xd1342543de82ef95 + 2
	rn = c.Seed*0x2545f4914f6cdd1d + 3
	EntropyHits = 0
	chanReset()
	timeReset()
	procReset()
	loadSched()
	pctLeft = nil
	if !c.Explicit && c.Policy == PolPCT {
		h := c.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < c.Depth; i++ {
			pctLeft = append(pctLeft, int64(1+rnd(&rs, h)))
		}
		for i := range pctLeft { // insertion sort
			for j := i; j > 0 && pctLeft[j] < pctLeft[j-1]; j-- {
				pctLeft[j], pctLeft[j-1] = pctLeft[j-1], pctLeft[j]
			}
		}
	}
	setNext()
	for _, d := range defs {
		t := newTask(d.Name, d.Fn)
		t.Daemon = d.Daemon
		t.Data = d.Data
	}
	cur = driver
	setup := Setup
	Setup = nil
	SetupSteps = 0
	ResetPackages()
	if setup != nil {
		mine := tasks
		t := newTask("setup", func() { runSetup(setup, mine) })
		t.NoPre = 1
		start(t)
		active = true
		cur = t
		for cur != driver {
			runtime.Gosched()
		}
	} else {
		for _, t := range tasks {
			start(t)
		}
		active = true
	}
	if len(tasks) > 0 && setup == nil {
		driver.local = 0
		var n *Task
		if c.Explicit {
			n = tasks[0]
			for _, s := range c.Sched {
				if s.Task == -1 && s.To >= 0 && s.To < len(tasks) {
					n = tasks[s.To]
				}
			}
		} else if c.Policy == PolPCT {
			n = pickPrio(nil)
		} else {
			n = pickUniform(nil)
		}
		if n.ID != 0 {
			out.Sched = append(out.Sched, Switch{-1, 0, n.ID})
		}
		cur = n
		for cur != driver {
			runtime.Gosched()
		}
	}
	out.Steps, out.Clock, out.Tasks = steps, clock, len(tasks)
	// teardown: unwind what is left
	aborting = true
	for i := 0; i < len(tasks); i++ {
		t := tasks[i]
		if t.state == stEmbryo {
			continue
		}
		for t.state != stDone {
			cur = t
			for cur != driver {
				runtime.Gosched()
			}
		}
	}
	wg.Wait()
	active = false
	aborting = false
	cur = nil
	return out
}
