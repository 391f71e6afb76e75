package main

import (
	"encoding/json"
	"runtime"
	"sync"
	"time"

	"verif/sim"
	"verif/simrt"
)

// minimiser shrinks a failing run: tasks, operations, fates, then the
// deviations from the default schedule.
type minimiser struct {
	prop string
	end  time.Time
	try  func(*sim.Spec) *sim.RunResult
	n    int
}

func cp(s *sim.Spec) *sim.Spec {
	b, _ := json.Marshal(s)
	var c sim.Spec
	json.Unmarshal(b, &c)
	return &c
}

// attempt tries a candidate with its schedule, then with a few fresh ones.
func (m *minimiser) attempt(c *sim.Spec) (*sim.Spec, *sim.RunResult) {
	if r := m.try(c); r != nil {
		c.Cfg.Sched = r.Out.Sched
		return c, r
	}
	return nil, nil
}

func (m *minimiser) research(c *sim.Spec, k int) (*sim.Spec, *sim.RunResult) {
	for i := 0; i < k && time.Now().Before(m.end); i++ {
		d := cp(c)
		d.Cfg = simrt.Config{Seed: c.Cfg.Seed + uint64(i)*101 + 1, Policy: simrt.PolUniform, Gap: []int{30, 5, 200}[i%3], MaxSteps: c.Cfg.MaxSteps, StepNS: c.Cfg.StepNS}
		if r := m.try(d); r != nil {
			e := cp(d)
			e.Cfg.Explicit = true
			e.Cfg.Sched = r.Out.Sched
			if x := m.try(e); x != nil {
				return e, x
			}
		}
	}
	return nil, nil
}

// first returns the first candidate (in order) that still fails; candidates
// are executed side by side.
func (m *minimiser) first(cs []*sim.Spec, research int) (*sim.Spec, *sim.RunResult) {
	w := runtime.NumCPU()
	for lo := 0; lo < len(cs) && time.Now().Before(m.end); lo += w {
		hi := min(lo+w, len(cs))
		specs := make([]*sim.Spec, hi-lo)
		results := make([]*sim.RunResult, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				s, r := m.attempt(cs[i])
				if r == nil && research > 0 {
					s, r = m.research(cs[i], research)
				}
				specs[i-lo], results[i-lo] = s, r
			}(i)
		}
		wg.Wait()
		for i := range specs {
			if results[i] != nil {
				return specs[i], results[i]
			}
		}
	}
	return nil, nil
}

func (m *minimiser) minimise(s *sim.Spec, r *sim.RunResult) (*sim.Spec, *sim.RunResult) {
	for progress := true; progress && time.Now().Before(m.end); {
		progress = false
		gens := []func(*sim.Spec) []*sim.Spec{dropTasks, dropOps, dropFates, simplifyOps}
		for gi, g := range gens {
			for time.Now().Before(m.end) {
				rs := 0
				if gi < 2 {
					rs = 2
				}
				c, x := m.first(g(s), rs)
				if x == nil {
					break
				}
				s, r, progress = c, x, true
			}
		}
	}
	// schedule
	for n := (len(s.Cfg.Sched) + 1) / 2; n >= 1 && time.Now().Before(m.end); {
		var cs []*sim.Spec
		for i := 0; i < len(s.Cfg.Sched); i += n {
			c := cp(s)
			c.Cfg.Sched = append(append([]simrt.Switch{}, s.Cfg.Sched[:i]...), s.Cfg.Sched[min(i+n, len(s.Cfg.Sched)):]...)
			cs = append(cs, c)
		}
		c, x := m.first(cs, 0)
		if x != nil {
			if len(c.Cfg.Sched) < len(s.Cfg.Sched) {
				s, r = c, x
				continue
			}
		}
		if n == 1 {
			break
		}
		n = (n + 1) / 2
	}
	// tidy: trailing empty operations
	c := cp(s)
	for ti := range c.Tasks {
		o := c.Tasks[ti].Ops
		for len(o) > 0 && (o[len(o)-1].K == "nop") {
			o = o[:len(o)-1]
		}
		c.Tasks[ti].Ops = o
	}
	if x := m.try(c); x != nil {
		s, r = c, x
	}
	return s, r
}

func dropTasks(s *sim.Spec) (out []*sim.Spec) {
	for i := range s.Tasks {
		if allNop(s.Tasks[i].Ops) {
			continue
		}
		c := cp(s)
		for j := range c.Tasks[i].Ops {
			c.Tasks[i].Ops[j] = sim.Op{K: "nop"}
		}
		out = append(out, c)
	}
	return
}

func allNop(o []sim.Op) bool {
	for _, x := range o {
		if x.K != "nop" {
			return false
		}
	}
	return true
}

func dropOps(s *sim.Spec) (out []*sim.Spec) {
	for i := range s.Tasks {
		n := len(s.Tasks[i].Ops)
		for _, size := range []int{(n + 1) / 2, (n + 3) / 4, 1} {
			for j := n - 1; j >= 0; j -= size {
				c := cp(s)
				ch := false
				for k := max(0, j-size+1); k <= j; k++ {
					if c.Tasks[i].Ops[k].K != "nop" {
						ch = true
					}
					c.Tasks[i].Ops[k] = sim.Op{K: "nop"}
				}
				if ch {
					out = append(out, c)
				}
			}
			if n < 3 {
				break
			}
		}
	}
	return
}

func dropFates(s *sim.Spec) (out []*sim.Spec) {
	for i := range s.Tasks {
		for j := range s.Tasks[i].Ops {
			o := s.Tasks[i].Ops[j]
			if o.Net != nil && *jsonNet(o.Net) != "{}" {
				c := cp(s)
				c.Tasks[i].Ops[j].Net = nil
				out = append(out, c)
			}
			if o.Fault != "" {
				c := cp(s)
				c.Tasks[i].Ops[j].Fault = ""
				out = append(out, c)
			}
			if o.Think != 0 {
				c := cp(s)
				c.Tasks[i].Ops[j].Think = 0
				out = append(out, c)
			}
			if o.REST && o.Net == nil && o.K != "raw" && o.K != "ping" && o.K != "options" {
				c := cp(s)
				c.Tasks[i].Ops[j].REST = false
				out = append(out, c)
			}
		}
	}
	return
}

func jsonNet(n *sim.Net) *string { b, _ := json.Marshal(n); s := string(b); return &s }

func simplifyOps(s *sim.Spec) (out []*sim.Spec) {
	for i := range s.Tasks {
		for j := range s.Tasks[i].Ops {
			o := s.Tasks[i].Ops[j]
			if len(o.Data) > 8 && (o.K == "mac" || o.K == "edata") {
				c := cp(s)
				c.Tasks[i].Ops[j].Data = o.Data[:8]
				out = append(out, c)
			}
			if o.N > 8 {
				c := cp(s)
				c.Tasks[i].Ops[j].N = o.N / 2
				out = append(out, c)
			}
		}
	}
	return
}
