package sim

import (
	"verif/simrt"
)

// Kinds of scenario; cmd-level ones register themselves.
var kinds = map[string]func(*Spec, *RunResult){
	"svc": runSvc,
}

// Register adds a scenario.
func Register(kind string, f func(*Spec, *RunResult)) { kinds[kind] = f }

// Once executes a spec exactly once.
func Once(s *Spec) *RunResult {
	res := newResult()
	f := kinds[s.Kind]
	if f == nil {
		panic("unknown scenario " + s.Kind)
	}
	f(s, res)
	return res
}

// Execute runs a spec and, where a property is about dependence (C07, C08,
// C13), decides by comparison runs whether what was found depends on it.
func Execute(s *Spec) *RunResult {
	res := Once(s)
	if s.Kind == "lib" {
		settleLib(s, res)
		return res
	}
	if s.Kind != "svc" {
		return res
	}
	var base []Finding
	for _, f := range res.Findings {
		if f.Known == "" && dependBase[f.Prop] {
			base = append(base, f)
		}
	}
	if len(base) == 0 || len(res.For(s.Prop)) > 0 {
		return res
	}
	switch s.Prop {
	case "C07":
		failed := map[[2]int]bool{}
		for _, h := range lastWorld.hist {
			if !h.ok && h.kind != "none" && h.task < len(s.Tasks) {
				failed[[2]int{h.task, h.op}] = true
			}
		}
		for _, h := range lastWorld.hist { // another copy of it may have succeeded
			if h.ok || h.incomp {
				delete(failed, [2]int{h.task, h.op})
			}
		}
		if len(failed) == 0 {
			return res
		}
		v := s.clone()
		for k := range failed {
			v.Tasks[k[0]].Ops[k[1]] = Op{K: "nop"}
		}
		if depends(s, v) {
			res.add("C07", "depends", "the violation below disappears when the operations that reported an error are left out, so they had an effect: "+base[0].Msg)
		}
	case "C08":
		v := s.clone()
		if v.P == nil {
			v.P = map[string]int64{}
		}
		v.P["noscrib"] = 1
		for ti := range v.Tasks {
			for oi := range v.Tasks[ti].Ops {
				if o := &v.Tasks[ti].Ops[oi]; o.K == "create" && o.N == 2 {
					*o = Op{K: "nop"}
				}
			}
		}
		if depends(s, v) {
			res.add("C08", "depends", "the violation below disappears when no holder changes or re-submits its object: "+base[0].Msg)
		}
	case "C13":
		// every device served alone
		idx := map[string][]int{}
		var order []string
		for i := range s.Devs {
			r, err := newRef(s.Devs[i])
			if err != nil {
				continue
			}
			if idx[r.IKHex()] == nil {
				order = append(order, r.IKHex())
			}
			idx[r.IKHex()] = append(idx[r.IKHex()], i)
		}
		if len(order) < 2 {
			return res
		}
		for _, ik := range order {
			v := s.clone()
			mine := map[int]bool{}
			for _, i := range idx[ik] {
				mine[i] = true
			}
			for i := range v.Devs {
				if !mine[i] {
					v.Devs[i].Pre = false
				}
			}
			for ti := range v.Tasks {
				for oi := range v.Tasks[ti].Ops {
					o := &v.Tasks[ti].Ops[oi]
					if !mine[o.Dev] && o.K != "list" && o.K != "ping" {
						*o = Op{K: "nop"}
					}
				}
			}
			if !depends(s, v) {
				return res
			}
		}
		res.add("C13", "depends", "the violation below appears only when several machines are served together: "+base[0].Msg)
	}
	return res
}

var dependBase = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true}

var lastWorld *world

// Fresh, when set, executes a spec in a process of its own.
var Fresh func(*Spec) *RunResult

func once(s *Spec) *RunResult {
	if Fresh != nil {
		return Fresh(s)
	}
	return Once(s)
}

// depends compares how often the variant and the original violate anything.
func depends(s, v *Spec) bool {
	const k = 6
	hit := 0
	for i := 0; i < k; i++ {
		a := s.clone()
		if i > 0 || !s.Cfg.Explicit {
			a.Cfg = diffCfg(s, i)
		}
		if baseHit(once(a)) {
			hit++
		}
		if i == 2 && hit == 0 {
			return false
		}
	}
	if hit < 3 {
		return false
	}
	for i := 0; i < k+2; i++ {
		b := v.clone()
		b.Cfg = diffCfg(s, i)
		if baseHit(once(b)) {
			return false
		}
	}
	return true
}

func diffCfg(s *Spec, i int) simrt.Config {
	return simrt.Config{Seed: s.Seed + uint64(i)*7919, Policy: simrt.PolUniform, Gap: []int{40, 8, 150}[i%3], MaxSteps: s.Cfg.MaxSteps}
}

func baseHit(r *RunResult) bool {
	for _, f := range r.Findings {
		if f.Known == "" && dependBase[f.Prop] {
			return true
		}
	}
	return false
}
