package sim

import (
	"fmt"
	"hash/fnv"
	"runtime"

	"github.com/moov-io/dukpt/pkg/server"

	"verif/simrt"
)

const finalTask = 99

type allDone struct {
	w *world
	n *int
}

func (a allDone) Ready() bool { return *a.n == 0 }

// runSvc executes a service scenario.
func runSvc(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := newWorld(s, res)
	lastWorld = w
	nReg := w.nReg
	w.noScrib = s.P["noscrib"] == 1
	for range s.Tasks {
		w.tasks = append(w.tasks, nil)
	}
	pre := map[string]int{}
	simrt.Setup = func() bool { return w.setup(pre) }
	live := len(s.Tasks)
	var defs []simrt.TaskDef
	for ti := range s.Tasks {
		ti := ti
		t := s.Tasks[ti]
		w.tasks[ti] = make([]*opRes, len(t.Ops))
		defs = append(defs, simrt.TaskDef{Name: t.Name, Fn: func() {
			for oi, o := range t.Ops {
				if o.Think > 0 {
					simrt.Sleep(o.Think)
				}
				w.doOp(ti, oi, o)
			}
			live--
		}})
	}
	defs = append(defs, simrt.TaskDef{Name: "final", Fn: func() {
		simrt.Block(allDone{w, &live}, "tasks")
		// connections still on their way
		simrt.Sleep(200 * sec)
		w.recheck()
		n := 0
		seen := map[string]bool{}
		for i := 0; i < nReg; i++ {
			if ik := w.iks[i]; ik != "" && !seen[ik] {
				seen[ik] = true
				rest := n%2 == 1
				w.doFinal(n, Op{K: "get", Dev: i, REST: rest})
				n++
				w.doFinal(n, Op{K: "mac", Dev: i, Data: "final", Act: "request", Mac: "cmac", REST: rest})
				n++
			}
		}
		w.doFinal(n, Op{K: "list"})
	}})
	simrt.EntropyFail = func() bool {
		c := curCtx()
		if c != nil && c.fault == "entropy" && !viaRandRead() {
			if !c.fired {
				res.Faults["randomness source fails"]++
			}
			c.fired = true
			return true
		}
		return false
	}
	res.Out = simrt.Run(s.Cfg, defs)
	simrt.EntropyFail = nil
	if w.secrets != nil {
		w.secrets.judgeLog(res, w.secrets.captured())
	}
	if res.Out.Crash != "" {
		res.add("C09", "crash", "a goroutine of the code under test crashed: "+res.Out.Crash)
	}
	if res.Out.Deadlock != "" {
		res.add("C12", "deadlock", "requests wait for each other for ever: "+res.Out.Deadlock)
	}
	if res.Out.StepLimit {
		res.add("C12", "no-progress", "a request does not finish within the step bound")
	}
	stuck := res.Out.Deadlock != "" || res.Out.StepLimit || res.Out.Crash != ""
	if stuck {
		for _, h := range w.hist {
			if h.ret == 0 {
				if res.Out.StepLimit && h.kind == "next" {
					res.addAll([]string{"C03", "C02"}, "no-answer", "an advance neither succeeds nor fails: "+h.String())
				}
				if res.Out.StepLimit {
					res.add("C09", "no-answer", "a call never returns: "+h.String())
				}
				h.ret = 1 << 60
				h.incomp = true
			}
		}
	}
	if w.ready {
		w.judge(pre)
	}
	for _, h := range w.hist {
		if h.kind == "skip" {
			continue
		}
		res.Ops++
		w.trace("%s", h.String())
	}
	f := fnv.New64a()
	for _, h := range w.hist {
		f.Write([]byte(h.String()))
	}
	res.HistHash = f.Sum64()
}

// setup starts the service and registers what is there from the beginning.
func (w *world) setup(pre map[string]int) bool {
	s, res := w.spec, w.res
	if pan := w.guard(w.start); pan != "" {
		res.addAll([]string{"C09", "C12"}, "panic", "the service does not start: "+pan)
		return false
	}
	for i := range s.Devs {
		if !s.Devs[i].Pre || w.regs[i] == nil {
			continue
		}
		if _, ok := pre[w.iks[i]]; ok {
			continue
		}
		m := server.NewMachine(baseKey(s.Devs[i]))
		var err error
		if pan := w.guard(func() { err = w.svc.CreateMachine(m) }); pan != "" {
			res.add("C09", "panic", "the service crashed on a valid registration: "+pan)
			return false
		}
		if simrt.Aborting() {
			return false
		}
		if err != nil && w.lenient(i) {
			continue
		}
		if err != nil {
			res.addAll([]string{"C06", "C07", "C02", "C04", "C09", "C10"}, "pre-register", fmt.Sprintf("a valid registration %+v was refused: %v", s.Devs[i], err))
			return false
		}
		pre[w.iks[i]] = i
	}
	w.ready = true
	return true
}

func (w *world) doOp(ti, oi int, o Op) {
	switch o.K {
	case "nop", "":
		return
	case "sleep":
		simrt.Sleep(int64(o.N))
		return
	case "scrib", "scribin":
		w.scribble(ti, o)
		return
	case "recheck":
		w.recheck()
		return
	}
	var h *hop
	if o.REST || o.K == "raw" || o.K == "ping" || o.K == "options" {
		h = w.restOp(ti, oi, o)
	} else {
		h = w.direct(ti, oi, o)
	}
	if w.secrets != nil && !h.ok && !h.rest && h.err != "" {
		w.secrets.refusal(w.res, h.String(), h.err)
	}
	w.tasks[ti][oi] = &opRes{h}
}

func (w *world) doFinal(n int, o Op) {
	w.tasks = append(w.tasks, nil)
	if o.REST {
		h := w.restOp(finalTask, n, o)
		_ = h
		return
	}
	w.direct(finalTask, n, o)
}

// viaRandRead tells whether the randomness is read through crypto/rand.Read,
// which is documented never to fail (the runtime ends the process instead).
func viaRandRead() bool {
	var pcs [16]uintptr
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := fr.Next()
		if f.Function == "crypto/rand.Read" {
			return true
		}
		if !more {
			return false
		}
	}
}
