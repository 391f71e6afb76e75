package simrt

import (
	"context"
	"os"
	"reflect"
	"runtime"
	"time"
)

func realYield() { runtime.Gosched() }

// ---- goroutines -----------------------------------------------------------

var pending []*Task

// BeforeGo precedes a go statement.
//
//go:norace
func BeforeGo() {}

// Wrap makes the function of a go statement run as a simulated task.
//
//go:norace
func Wrap[F any](f F) F {
	if !Active() {
		return f
	}
	t := newTask("go", nil)
	t.Name = "go#" + itoa(t.ID)
	t.Daemon = true
	t.Data = cur.Data
	t.code = true
	pending = append(pending, t)
	wg.Add(1)
	if g, ok := any(f).(func()); ok {
		w := func() {
			defer finish(t)
			wait(t)
			g()
		}
		return any(w).(F)
	}
	rv := reflect.ValueOf(f)
	if !rv.IsValid() || rv.Kind() != reflect.Func || rv.IsNil() {
		panic("go of nil func value")
	}
	mk := reflect.MakeFunc(rv.Type(), func(args []reflect.Value) (res []reflect.Value) {
		defer finish(t)
		wait(t)
		if rv.Type().IsVariadic() {
			return rv.CallSlice(args)
		}
		return rv.Call(args)
	})
	return mk.Interface().(F)
}

// AfterGo follows a go statement.
//
//go:norace
func AfterGo() {
	if len(pending) == 0 {
		return
	}
	t := pending[len(pending)-1]
	pending = pending[:len(pending)-1]
	t.state = stRunnable
}

//go:norace
func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

// ---- process --------------------------------------------------------------

// Env is the simulated environment.
var Env [][2]string

var sigChans []sigReg
var procExitHook func(code int)

type sigReg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
}

//go:norace
func procReset() {
	pending = nil
	sigChans = nil
	SigDelivered, SigIgnored = 0, 0
}

// Exit is os.Exit: the process is gone at once, no deferred call runs before
// the run is over.
//
//go:norace
func Exit(code int) {
	if !active {
		os.Exit(code)
	}
	if aborting {
		runtime.Goexit()
	}
	if cur.Data != nil {
		if p, ok := cur.Data.(interface{ ProcExit(int) bool }); ok && p.ProcExit(code) {
			// a simulated process of its own: only this task ends
			cur.parked = true
			cur.state = stBlocked
			cur.w = nil
			reschedule(cur)
			return
		}
	}
	if !out.Exited {
		out.Exited = true
		out.ExitCode = code
		out.ExitTime = clock
	}
	if OnExit != nil {
		OnExit(code)
	}
	endRun = true
	park(cur)
}

// Getenv reads the simulated environment.
//
//go:norace
func Getenv(k string) string { v, _ := LookupEnv(k); return v }

// LookupEnv reads the simulated environment.
//
//go:norace
func LookupEnv(k string) (string, bool) {
	for _, e := range Env {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

// SigDelivered and SigIgnored count signals.
var SigDelivered, SigIgnored int

// SignalNotify registers for signals.
//
//go:norace
func SignalNotify(c chan<- os.Signal, sigs ...os.Signal) {
	sigChans = append(sigChans, sigReg{c, sigs})
}

// SignalStop unregisters.
//
//go:norace
func SignalStop(c chan<- os.Signal) {
	var keep []sigReg
	for _, s := range sigChans {
		if s.ch != c {
			keep = append(keep, s)
		}
	}
	sigChans = keep
}

// SignalNotifyContext is signal.NotifyContext.
func SignalNotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	SignalNotify(ch, sigs...)
	Spawn("notifyctx", true, func() {
		if Select(false, CR[chan os.Signal, os.Signal](ch), CR[<-chan struct{}, struct{}](ctx.Done())) == 0 {
			cancel()
		}
	})
	return ctx, func() { SignalStop(ch); cancel() }
}

// Raise delivers a signal to the simulated process; it reports false when no
// handler is installed (the default action would end the process).
//
//go:norace
func Raise(s os.Signal) bool {
	hit := false
	for _, r := range sigChans {
		m := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == s {
				m = true
			}
		}
		if m {
			hit = true
			select {
			case r.ch <- s:
				SigDelivered++
			default:
				SigIgnored++
			}
		}
	}
	return hit
}

// ---- randomness -----------------------------------------------------------

// Entropy is the simulated source of randomness.
type Entropy struct{}

type entropyErr struct{}

func (entropyErr) Error() string { return "simulated: randomness source unavailable" }

//go:norace
func (Entropy) Read(p []byte) (int, error) {
	if EntropyFail != nil && active && EntropyFail() {
		EntropyHits++
		return 0, entropyErr{}
	}
	for i := range p {
		p[i] = byte(splitmix(&rn) >> 24)
	}
	return len(p), nil
}

// ---- time -----------------------------------------------------------------

// Base is the simulated wall-clock time at the start of a run.
var Base = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	t    *Task
	gen  *int
	stop bool
	done bool
	f    func()
}

type Ticker struct {
	C    <-chan time.Time
	stop bool
}

func timeReset() {}

//go:norace
func TimeNow() time.Time {
	if !active {
		return time.Now()
	}
	return Base.Add(time.Duration(clock))
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	if !active {
		time.Sleep(d)
		return
	}
	Sleep(int64(d))
}

func mkTimer(d time.Duration, f func()) *Timer {
	c := make(chan time.Time, 1)
	tm := &Timer{C: c, c: c, f: f}
	tm.arm(d)
	return tm
}

func (t *Timer) arm(d time.Duration) {
	t.stop, t.done = false, false
	g := new(int)
	t.gen = g
	Spawn("timer", true, func() {
		Sleep(int64(d))
		if t.gen != g || t.stop {
			return
		}
		t.done = true
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- TimeNow():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	was := !t.stop && !t.done
	t.stop = true
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := !t.stop && !t.done
	select {
	case <-t.c:
	default:
	}
	t.arm(d)
	return was
}

func TimeNewTimer(d time.Duration) *Timer            { return mkTimer(d, nil) }
func TimeAfter(d time.Duration) <-chan time.Time     { return mkTimer(d, nil).C }
func TimeAfterFunc(d time.Duration, f func()) *Timer { return mkTimer(d, f) }
func TimeTick(d time.Duration) <-chan time.Time      { return TimeNewTicker(d).C }
func (t *Ticker) Stop()                              { t.stop = true }
func (t *Ticker) Reset(time.Duration)                {}

func TimeNewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	Spawn("ticker", true, func() {
		for !t.stop {
			Sleep(int64(d))
			select {
			case c <- TimeNow():
			default:
			}
		}
	})
	return t
}

type deadlineCtx struct {
	context.Context
	at  time.Time
	err *error
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	if e := d.Context.Err(); e != nil {
		if *d.err != nil {
			return *d.err
		}
		return e
	}
	return nil
}

// CtxWithTimeout is context.WithTimeout on the simulated clock.
func CtxWithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !Active() {
		return context.WithTimeout(p, d)
	}
	return CtxWithDeadline(p, TimeNow().Add(d))
}

// CtxWithDeadline is context.WithDeadline on the simulated clock.
func CtxWithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	if !Active() {
		return context.WithDeadline(p, at)
	}
	ctx, cancel := context.WithCancel(p)
	var e error
	dc := deadlineCtx{ctx, at, &e}
	if pd, ok := p.Deadline(); ok && pd.Before(at) {
		dc.at = pd
	}
	Spawn("ctx deadline", true, func() {
		Sleep(int64(dc.at.Sub(TimeNow())))
		if ctx.Err() == nil {
			e = context.DeadlineExceeded
			cancel()
		}
	})
	return dc, cancel
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) (stop func() bool) {
	if !Active() {
		return context.AfterFunc(ctx, f)
	}
	stopped, ran := false, false
	Spawn("ctx afterfunc", true, func() {
		Recv2[<-chan struct{}, struct{}](ctx.Done())
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool { s := !stopped && !ran; stopped = true; return s }
}

// SeedEntropy starts the simulated randomness for what precedes a run.
func SeedEntropy(seed uint64) { rn = seed*0x2545f4914f6cdd1d + 5 }
