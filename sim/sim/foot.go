package sim

import (
	"bufio"
	"context"
	"fmt"
	"hash/fnv"
	"net/http"
	"net/url"
	"os"
	"runtime"

	"github.com/moov-io/dukpt/pkg/server"

	"verif/simrt"
	"verif/simsync"
)

// The "foot" scenario: thousands of requests of a few kinds, served, refused,
// cut off, stalled or injected with faults, by several clients at once. After
// each of three phases (of n, n and 2n requests) the machines that are not
// there from the beginning are removed, ten minutes pass and the memory and the
// goroutines that are left are counted. Whatever a request leaves behind
// doubles from phase to phase; what is bounded (pools, caches, buffers) does
// not.

// What becomes of the requests of a template (Op.N).
const (
	fOK      = iota // served
	fSpoil          // arguments that are refused
	fHostile        // arbitrary bytes
	fDamage         // bytes corrupted on the way
	fCut            // the connection dies in the middle of the request
	fStall          // the client stalls for longer than it may
	fGone           // the client is gone before it is answered
	fFault          // the store or the randomness fails
	fUnknown        // a machine that is not registered
	fPath           // a path or method that is not served
	fFresh          // a new machine: registered, used, removed
	fN
)

type mem struct {
	heap  int64
	tasks int64
}

type footWorld struct {
	*world
	tmpl  []Op
	n     int
	seen  map[string]int
	hash  uint64
	marks []mem
	flood bool
}

// settle removes what the requests registered and puts back what they removed.
func (f *footWorld) settle() {
	base := map[string]int{}
	for i := range f.spec.Devs {
		if f.spec.Devs[i].Pre && f.regs[i] != nil {
			base[f.iks[i]] = i
		}
	}
	simrt.Cur().Data = &opCtx{}
	for _, m := range f.svc.GetMachines() {
		if m == nil {
			continue
		}
		if _, ok := base[m.InitialKey]; ok {
			delete(base, m.InitialKey)
			continue
		}
		_ = f.svc.DeleteMachine(m.InitialKey)
	}
	for _, d := range f.spec.Devs {
		if rd, err := newRef(d); err == nil {
			if _, ok := base[rd.IKHex()]; ok {
				_ = f.svc.CreateMachine(server.NewMachine(baseKey(d)))
			}
		}
	}
	simrt.Cur().Data = nil
}

func (f *footWorld) measure() {
	simrt.Sleep(600 * sec)
	f.settle()
	simrt.Sleep(600 * sec)
	simsync.DropPools()
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	f.marks = append(f.marks, mem{int64(ms.HeapAlloc) - simrt.Own(), int64(simrt.Live())})
}

// request makes one request of a template.
func (f *footWorld) request(r *RNG, t Op) Op {
	s := &Spec{Devs: f.spec.Devs[:len(f.spec.Devs):len(f.spec.Devs)]}
	dev := t.Dev
	o := Op{K: t.K, Dev: dev, REST: t.REST}
	switch t.K {
	case "epin", "dpin", "mac", "edata", "ddata":
		o = r.crypto(t.K, dev, s.Devs[dev])
		o.REST, o.Dev = t.REST, dev
	}
	n := &Net{}
	if r.P(1, 3) {
		n.Origin = "https://" + r.hex(8) + ".test"
	}
	switch t.N {
	case fSpoil:
		r.spoil(s, &o)
	case fHostile:
		o = Op{K: "raw", Dev: dev, Raw: r.hostile(s, dev)}
	case fDamage:
		n.Flip = []int{r.N(1 << 20)}
	case fCut:
		n.Cut = r.In(1, 400)
	case fStall:
		n.StallAt, n.StallFor, n.Chunk = r.In(1, 300), 40*sec, r.In(20, 200)
	case fGone:
		n.RDie = true
	case fFault:
		o.Fault = pickOf(r, "find", "store", "entropy")
		switch t.K {
		case "create":
			o.Fault = "store"
		case "next", "get", "mac":
			o.Fault = "find"
		}
	case fUnknown:
		o.Raw = r.hex(16)
	case fPath:
		o = Op{K: "raw", Dev: dev, Raw: fmt.Sprintf("%s /%s/%s HTTP/1.1\r\nHost: x\r\nX-Request-ID: %s\r\n\r\n", pickOf(r, "GET", "PUT", "DELETE", "HEAD"), pickOf(r, "machine", "machines", "generate_ksn", r.hex(4)), r.hex(8), r.hex(8))}
	case fFresh:
		d := s.Devs[dev]
		d.BDK = r.hex(len(d.BDK) / 2)
		s.Devs = append(s.Devs, d)
		o = Op{K: "fresh", Dev: len(s.Devs) - 1, REST: t.REST}
	}
	o.Net = n
	if o.K == "create" || o.K == "fresh" {
		// registrations that are not in the list of devices travel in the operation
		d := s.Devs[o.Dev]
		o.Args, o.Raw, o.Data, o.Act, o.Mac = nil, d.KSN, d.BDK, d.Alg, d.Type
	}
	return o
}

func footDev(o Op) Dev { return Dev{Alg: o.Act, Type: o.Mac, BDK: o.Data, KSN: o.Raw} }

// do executes one request and reports how it went.
func (f *footWorld) do(o Op) string {
	simrt.Cur().Data = &opCtx{fault: o.Fault}
	if o.REST || o.K == "raw" {
		return f.conn(o)
	}
	var err error
	pan := f.guard(func() {
		ik := f.ikOf(o)
		switch o.K {
		case "create":
			err = f.svc.CreateMachine(server.NewMachine(baseKey(footDev(o))))
		case "fresh":
			m := server.NewMachine(baseKey(footDev(o)))
			if err = f.svc.CreateMachine(m); err == nil {
				_, _ = f.svc.MakeNextKSN(m.InitialKey)
				_, err = f.svc.GetMachine(m.InitialKey)
				_ = f.svc.DeleteMachine(m.InitialKey)
			}
		case "get":
			_, err = f.svc.GetMachine(ik)
		case "list":
			f.svc.GetMachines()
		case "next":
			_, err = f.svc.MakeNextKSN(ik)
		case "epin":
			_, err = f.svc.EncryptPin(ik, o.Pin, o.Pan, o.Fmt)
		case "dpin":
			_, err = f.svc.DecryptPin(ik, o.Data, o.Pan, o.Fmt)
		case "mac":
			_, err = f.svc.GenerateMac(ik, o.Data, o.Act, o.Mac)
		case "edata":
			_, err = f.svc.EncryptData(ik, o.Data, o.Act, o.IV)
		case "ddata":
			_, err = f.svc.DecryptData(ik, o.Data, o.Act, o.IV)
		}
	})
	switch {
	case pan != "":
		return "panic"
	case err != nil:
		return "error"
	}
	return "ok"
}

// conn is one connection of a client.
func (f *footWorld) conn(o Op) string {
	var raw []byte
	switch o.K {
	case "create", "fresh":
		d := footDev(o)
		raw = rawRequest("POST", "/machine", jsonBody("Algorithm", d.Alg, "AlgorithmKey", d.Type, "BaseDerivativeKey", d.BDK, "KeySerialNumber", d.KSN), o.Net.Origin, "")
	default:
		raw = f.buildRequest(o, f.ikOf(o), "")
	}
	conn, _ := deliver(raw, o.Net, f.res)
	if o.Net.RDie {
		f.res.Faults["client gone before the response"]++
	}
	req, err := http.ReadRequest(bufio.NewReader(conn))
	if err != nil {
		return "unread"
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if o.Net.RDie {
		cancel()
	}
	c := &capture{hdr: http.Header{}, n: o.Net, w: f.world, dead: o.Net.RDie}
	req = req.WithContext(ctx)
	req.RemoteAddr = "10.0.0.1:1"
	if pan := f.guard(func() { f.h.ServeHTTP(c, req) }); pan != "" {
		return "panic"
	}
	if o.K == "fresh" {
		if rd, err := newRef(footDev(o)); err == nil {
			p := url.PathEscape(rd.IKHex())
			for _, raw := range [][]byte{rawRequest("POST", "/generate_ksn/"+p, "", o.Net.Origin, ""), rawRequest("GET", "/machine/"+p, "", "", "")} {
				conn, _ := deliver(raw, nil, f.res)
				if req, err := http.ReadRequest(bufio.NewReader(conn)); err == nil {
					f.guard(func() { f.h.ServeHTTP(&capture{hdr: http.Header{}, w: f.world}, req.WithContext(ctx)) })
				}
			}
			_ = f.svc.DeleteMachine(rd.IKHex())
		}
	}
	return fmt.Sprint(c.code)
}

func runFoot(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := newWorld(s, res)
	lastWorld = nil
	f := &footWorld{world: w, n: int(s.P["n"]), seen: map[string]int{}}
	for _, t := range s.Tasks {
		for _, o := range t.Ops {
			if o.K != "nop" {
				f.tmpl = append(f.tmpl, o)
			}
		}
	}
	if len(f.tmpl) == 0 {
		return
	}
	pre := map[string]int{}
	simrt.Setup = func() bool { return w.setup(pre) }
	clients := max(int(s.P["clients"]), 1)
	h := fnv.New64a()
	defs := []simrt.TaskDef{{Name: "master", Fn: func() {
		// after the third phase only for as long as memory or goroutines keep
		// growing in step and something bounded, but large, could still be why
		for phase, n := 0, f.n; phase < 3 || f.growing(); phase++ {
			if phase > 1 {
				n *= 2
			}
			var ts []*simrt.Task
			for c := 0; c < clients; c++ {
				r := NewRNG(s.Seed*31 + uint64(phase*100+c))
				ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d.%d", phase, c), false, func() {
					for i := 0; i < n/clients; i++ {
						t := f.tmpl[r.N(len(f.tmpl))]
						if f.flood {
							return
						}
						how := f.do(f.request(r, t))
						if simrt.Aborting() {
							return
						}
						f.flood = f.flood || simrt.Live() > footFlood
						res.Ops++
						h.Write([]byte(how))
						f.seen[fmt.Sprintf("%s/%d -> %s", t.K, t.N, how)]++
						if t.N != fStall {
							simrt.Gosched()
						}
					}
					simrt.Cur().Data = nil
				}))
			}
			for _, t := range ts {
				simrt.Join(t)
			}
			f.measure()
			if f.flood {
				return
			}
		}
	}}}
	simrt.EntropyFail = func() bool {
		c := curCtx()
		if c != nil && c.fault == "entropy" && !viaRandRead() {
			if !c.fired {
				res.Faults["randomness source fails"]++
			}
			c.fired = true
			return true
		}
		return false
	}
	res.Out = simrt.Run(s.Cfg, defs)
	simrt.EntropyFail = nil
	res.HistHash = h.Sum64()
	if res.Out.Crash != "" {
		res.add("C09", "crash", "a goroutine of the code under test crashed: "+res.Out.Crash)
		return
	}
	kinds := sortedKeys(f.seen)
	for _, k := range kinds {
		w.trace("%6d x %s", f.seen[k], k)
	}
	if res.Out.Deadlock != "" {
		res.add("C22", "stuck", "requests wait for ever for what earlier ones never gave back: "+clip(res.Out.Deadlock, 600))
		return
	}
	if res.Out.StepLimit {
		res.Incon++
		return
	}
	if f.flood {
		if k := len(f.marks); k > 0 && f.marks[k-1].tasks > footFlood/2 {
			res.add("C22", "goroutines", fmt.Sprintf("goroutines outlive the requests that started them: four hours after %d requests of %d clients more than %d are left", res.Ops, clients, footFlood/2))
		}
		return
	}
	if len(f.marks) >= 3 {
		f.judge()
	}
}

// suspect tells whether the last two phases left amounts behind that go with
// the number of their requests.
func (f *footWorld) suspect() (memory, tasks bool) {
	k := len(f.marks)
	a, b, c := f.marks[k-3], f.marks[k-2], f.marks[k-1]
	n := int64(f.n) << (k - 3) // requests of the last phase but one
	first, second := b.heap-a.heap, c.heap-b.heap
	memory = first > 6*n+12<<10 && second > 12*n+24<<10 && second*10 > first*14
	g, h := b.tasks-a.tasks, c.tasks-b.tasks
	tasks = h > 24 && g > 8 && h*10 > g*14
	return
}

// Growth that a run has to show before it is not put down to a cache or a pool
// that is still filling.
const (
	footBytes = 2 << 20 // enough to stop
	footLeast = 640 << 10
	footTasks = 1000
	footFlood = 2500 // goroutines alive at once, with at most eight clients
	footSteps = 6    // marks: 32n requests
)

func (f *footWorld) growing() bool {
	memory, tasks := f.suspect()
	k := len(f.marks)
	if k >= footSteps || !memory && !tasks {
		return false
	}
	d := mem{f.marks[k-1].heap - f.marks[0].heap, f.marks[k-1].tasks - f.marks[0].tasks}
	return (memory && d.heap < footBytes || !memory) && (tasks && d.tasks < footTasks || !tasks)
}

func (f *footWorld) judge() {
	f.res.Probes["memory compared"]++
	k := len(f.marks)
	if k > 3 {
		f.res.Probes["run extended to tell a leak from a cache"]++
	}
	if footDebug {
		f.trace("marks %v", f.marks)
	}
	// the requests before each of the last three marks
	n := []int{f.n << (k - 3), f.n << (k - 2), f.n << (k - 1)}
	a, b, c := f.marks[k-3], f.marks[k-2], f.marks[k-1]
	memory, tasks := f.suspect()
	if memory && c.heap-f.marks[0].heap >= footLeast {
		per := (c.heap - b.heap) / int64(n[2]-n[1])
		x := int64(16)
		for x*2 <= per {
			x *= 2
		}
		f.res.add("C22", "memory", fmt.Sprintf("the memory held grows with the number of requests, although they are over and no machine was added: after %d, %d and %d requests it grows by some %d bytes per request", n[0], n[1], n[2], x))
	}
	if tasks {
		f.res.add("C22", "goroutines", fmt.Sprintf("goroutines outlive the requests that started them: after %d, %d and %d requests %d, %d and %d are left", n[0], n[1], n[2], a.tasks, b.tasks, c.tasks))
	}
}

var footDebug = os.Getenv("FOOT_DEBUG") != ""

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func init() {
	Register("foot", runFoot)
	gens["C22"] = genFoot
}

func genFoot(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	s := &Spec{Prop: prop, Kind: "foot", Seed: seed, P: map[string]int64{}}
	nd := r.In(1, 3)
	for i := 0; i < nd; i++ {
		d := r.dev("", pickOf(r, "", "", "", "atend"))
		d.Pre = true
		s.Devs = append(s.Devs, d)
	}
	kinds := []string{"create", "get", "list", "next", "epin", "dpin", "mac", "edata", "ddata", "ping", "options"}
	nt := pickOf(r, 1, 1, 2, 3, 6)
	var ops []Op
	for len(ops) < nt {
		o := Op{K: kinds[r.N(len(kinds))], Dev: r.N(nd), REST: r.P(4, 5), N: r.N(fN)}
		if r.P(1, 4) {
			o.N = fOK
		}
		switch o.K {
		case "ping", "options":
			o.REST = true
			if o.N == fSpoil || o.N == fFault || o.N == fUnknown || o.N == fFresh {
				o.N = fOK
			}
		case "list", "create":
			if o.N == fUnknown || o.K == "list" && (o.N == fSpoil || o.N == fFault) {
				o.N = fOK
			}
		}
		switch o.N {
		case fDamage, fCut, fStall, fGone:
			o.REST = true
		}
		ops = append(ops, o)
	}
	s.Tasks = []Task{{Name: "templates", Ops: ops}}
	s.P["n"] = int64(r.In(1500, 2200))
	s.P["clients"] = int64(pickOf(r, 1, 2, 4, 8))
	s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolBlock, MaxSteps: 2_000_000_000}
	if r.P(1, 2) {
		s.Cfg.Policy, s.Cfg.Gap = simrt.PolUniform, pickOf(r, 300, 1000, 3000)
	}
	return s
}
