package sim

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/server"

	"verif/ref"
	"verif/simrt"
)

// The "race" scenario (C18) runs in a binary built with -race. The hand-over
// between tasks is invisible to the detector, and the tasks share nothing but
// the service, its HTTP handler and the library, so that every happens-before
// edge the detector sees is one the code under test made.

type raceTask struct {
	ops   []Op
	id    int
	svc   server.Service
	reg   server.Repository
	h     http.Handler
	libs  []*libDev
	iks   []string
	devs  []Dev
	views []*server.Machine // results and creation objects this task holds
	out   []string
	sum   uint64
	n     int
	last  string
}

func (t *raceTask) note(f string, a ...any) { t.out = append(t.out, fmt.Sprintf(f, a...)) }

// look reads everything a holder can read.
func (t *raceTask) look(m *server.Machine) {
	if m == nil {
		return
	}
	for _, s := range [...]string{m.Algorithm, m.AlgorithmKey, m.BaseDerivativeKey, m.KeySerialNumber, m.InitialKey, m.CurrentKSN, m.TransactionKey} {
		for i := 0; i < len(s); i++ {
			t.sum = t.sum*31 + uint64(s[i])
		}
	}
}

func (t *raceTask) keep(m *server.Machine) {
	if m != nil {
		t.look(m)
		t.views = append(t.views, m)
	}
}

type raceWriter struct {
	hdr  http.Header
	code int
	body bytes.Buffer
}

func (w *raceWriter) Header() http.Header         { return w.hdr }
func (w *raceWriter) WriteHeader(c int)           { w.code = c }
func (w *raceWriter) Write(p []byte) (int, error) { return w.body.Write(p) }

func (t *raceTask) request(o Op, ik string) {
	w := &world{devs: t.devs, iks: t.iks}
	o.Raw = ""
	raw := w.buildRequest(o, ik, "")
	head, body, _ := bytes.Cut(raw, []byte("\r\n\r\n"))
	line, _, _ := bytes.Cut(head, []byte("\r\n"))
	f := strings.Fields(string(line))
	req, err := http.NewRequest(f[0], f[1], io.NopCloser(bytes.NewReader(body)))
	if err != nil {
		return
	}
	req.Header.Set("Content-Type", "application/json")
	req.Header.Set("Origin", fmt.Sprintf("https://client%d.test", t.id))
	rw := &raceWriter{hdr: http.Header{}}
	t.h.ServeHTTP(rw, req)
	t.last = rw.body.String()
	t.note("%s -> %d %.80s", f[0]+" "+f[1], rw.code, t.last)
}

func (t *raceTask) do(o Op) {
	defer func() {
		if simrt.Aborting() {
			return
		}
		if r := recover(); r != nil {
			t.note("%s: panic %v", o.K, r)
		}
	}()
	t.n++
	if strings.HasPrefix(o.K, "lib-") {
		o.K = o.K[4:]
		buf, _, val, err, _, _ := t.libs[o.Dev].call(o)
		for _, b := range buf {
			t.sum = t.sum*31 + uint64(b)
		}
		if opArg(o, aScr) == 1 { // the result is the caller's
			for i := range buf {
				buf[i] ^= 0x5a
			}
		}
		t.note("lib %s: %x %q %v", o.K, len(buf), val, err)
		return
	}
	ik := t.iks[o.Dev]
	switch o.K {
	case "look":
		for _, m := range t.views {
			t.look(m)
		}
		return
	case "scrib":
		for i, m := range t.views {
			if i%2 == o.N%2 {
				m.CurrentKSN, m.TransactionKey, m.InitialKey = "SCRIBBLE", "SCRIBBLE", "SCRIBBLE"
			}
		}
		t.views = nil
		return
	}
	switch o.K { // a registry of its own, without a service
	case "r-store":
		m := server.NewMachine(baseKey(t.devs[o.Dev]))
		m.InitialKey = ik
		t.note("store %s: %v", short(ik), t.reg.StoreMachine(m))
		return
	case "r-find":
		m, err := t.reg.FindMachine(ik)
		t.look(m)
		t.note("find %s: %v %v", short(ik), m != nil, err)
		return
	case "r-list":
		l := t.reg.FindAllMachines()
		for _, m := range l {
			t.look(m)
		}
		t.note("list: %d", len(l))
		return
	case "r-del":
		t.note("delete %s: %v", short(ik), t.reg.DeleteMachine(ik))
		return
	}
	if o.REST {
		t.request(o, ik)
		return
	}
	var m *server.Machine
	var s string
	var err error
	switch o.K {
	case "create":
		m = server.NewMachine(baseKey(t.devs[o.Dev]))
		err = t.svc.CreateMachine(m)
		t.keep(m)
	case "get":
		m, err = t.svc.GetMachine(ik)
		t.keep(m)
	case "list":
		for _, x := range t.svc.GetMachines() {
			t.keep(x)
		}
	case "next":
		m, err = t.svc.MakeNextKSN(ik)
		t.keep(m)
	case "del":
		err = t.svc.DeleteMachine(ik)
	case "epin":
		s, err = t.svc.EncryptPin(ik, o.Pin, o.Pan, o.Fmt)
	case "dpin":
		s, err = t.svc.DecryptPin(ik, o.Data, o.Pan, o.Fmt)
	case "mac":
		s, err = t.svc.GenerateMac(ik, o.Data, o.Act, o.Mac)
	case "edata":
		s, err = t.svc.EncryptData(ik, o.Data, o.Act, o.IV)
	case "ddata":
		s, err = t.svc.DecryptData(ik, o.Data, o.Act, o.IV)
	}
	t.note("%s %s: %.40s %v", o.K, short(ik), s, err)
}

func newRaceWorld(s *Spec) (ts []*raceTask, ok bool) {
	defer func() {
		if !simrt.Aborting() && recover() != nil {
			ok = false
		}
	}()
	svc := server.NewService(server.NewRepositoryInMemory(log.NewNopLogger()))
	reg := server.NewRepositoryInMemory(log.NewNopLogger())
	h := server.MakeHTTPHandler(svc)
	var iks []string
	var libs []*libDev
	for i, d := range s.Devs {
		rd, e := newRef(d)
		if e != nil {
			return nil, false
		}
		iks = append(iks, rd.IKHex())
		l, e := newLibDev(d, s.Seed+uint64(i)*77)
		if e != nil {
			return nil, false
		}
		key := bytes.Clone(l.d.TK(l.tc))
		if l.d.AES {
			x, e := encryption.NewAesECB(key)
			if e != nil {
				return nil, false
			}
			l.ecb = x
		} else {
			x, e := encryption.NewTripleDesECB(key)
			if e != nil {
				return nil, false
			}
			l.ecb = x
		}
		libs = append(libs, l)
		if d.Pre {
			if e := svc.CreateMachine(server.NewMachine(baseKey(d))); e != nil {
				return nil, false
			}
		}
	}
	for i, t := range s.Tasks {
		ops := make([]Op, len(t.Ops))
		copy(ops, t.Ops)
		ts = append(ts, &raceTask{ops: ops, id: i, svc: svc, reg: reg, h: h, libs: libs, iks: append([]string(nil), iks...), devs: append([]Dev(nil), s.Devs...)})
	}
	return ts, true
}

// warmRace lets one caller at a time pass through everything once: caches the
// standard library fills on first use would otherwise order the tasks of the
// first run of a process and of no other.
func warmRace() {
	r := NewRNG(4711)
	s := &Spec{Devs: []Dev{r.dev("des", ""), r.dev("aes", "")}}
	s.Devs[0].Pre, s.Devs[1].Pre = true, true
	s.Tasks = []Task{{Name: "warm"}}
	for dev, d := range s.Devs {
		for _, k := range wOrder {
			if k == "pair" || k == "del" {
				continue
			}
			for _, rest := range []bool{false, true} {
				o := r.crypto(k, dev, d)
				o.REST = rest
				s.Tasks[0].Ops = append(s.Tasks[0].Ops, o)
				if k == "mac" {
					o.Mac = "hmac"
					s.Tasks[0].Ops = append(s.Tasks[0].Ops, o)
				}
			}
		}
		for _, k := range libOps {
			s.Tasks[0].Ops = append(s.Tasks[0].Ops, Op{K: "lib-" + k, Dev: dev, Args: make([]int, aNum), Act: "request", Data: "x", Mac: "cmac"})
		}
	}
	var ts []*raceTask
	simrt.Setup = func() (ok bool) { ts, ok = newRaceWorld(s); return ok }
	simrt.Run(simrt.Config{Seed: 1, Policy: simrt.PolBlock}, []simrt.TaskDef{{Name: "warm", Fn: func() {
		for _, o := range ts[0].ops {
			ts[0].do(o)
		}
	}}})
	_ = pkg.AlgorithmAes
	_ = ref.DesMax
}

var raceWarm bool
var raceOff int64

func raceReports() string {
	p := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			p = f[9:] + fmt.Sprintf(".%d", os.Getpid())
		}
	}
	if p == "" {
		return ""
	}
	f, err := os.Open(filepath.Clean(p))
	if err != nil {
		return ""
	}
	defer f.Close()
	f.Seek(raceOff, io.SeekStart)
	b, _ := io.ReadAll(f)
	raceOff += int64(len(b))
	if raceOff > 0 && len(b) == 0 {
		raceOff = 0
	}
	return string(b)
}

// raceFinding decides whether a report concerns the code under test and names
// the two accesses.
func raceFinding(rep string) (string, bool) {
	var acc []string
	ours := false
	for _, st := range strings.Split(rep, "\n\n") {
		lines := strings.Split(strings.TrimSpace(st), "\n")
		for len(lines) > 0 && (strings.HasPrefix(lines[0], "====") || strings.HasPrefix(lines[0], "WARNING")) {
			lines = lines[1:]
		}
		if len(lines) == 0 {
			continue
		}
		head := strings.TrimSpace(lines[0])
		if !strings.Contains(head, " at 0x") || !strings.Contains(head, " by ") {
			continue
		}
		kind, _, _ := strings.Cut(head, " at 0x")
		first := ""
		top := ""
		for i := 1; i+1 < len(lines); i += 2 {
			fn := strings.TrimSpace(lines[i])
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(loc, " +0x"); j > 0 {
				loc = loc[:j]
			}
			if top == "" && !strings.HasPrefix(fn, "runtime.") {
				top = fn
			}
			if strings.HasPrefix(fn, "github.com/moov-io/dukpt") {
				first = strings.TrimPrefix(fn, "github.com/moov-io/dukpt/") + " " + filepath.Base(loc)
				ours = true
				break
			}
		}
		if (strings.HasPrefix(top, "verif/simrt.") || strings.HasPrefix(top, "verif/simsync.")) && !strings.Contains(top, "MapIter") && !strings.Contains(top, "ChanIter") {
			return "", false // the simulator's own bookkeeping
		}
		if first == "" {
			first = top
		}
		acc = append(acc, strings.ToLower(kind)+" in "+first)
	}
	return strings.Join(acc, " / "), ours && len(acc) > 0
}

func runRace(s *Spec, res *RunResult) {
	if !raceWarm {
		raceWarm = true
		warmRace()
	}
	simrt.SeedEntropy(s.Seed)
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	var ts []*raceTask
	simrt.Setup = func() (ok bool) { ts, ok = newRaceWorld(s); return ok }
	var defs []simrt.TaskDef
	for i := range s.Tasks {
		defs = append(defs, simrt.TaskDef{Name: s.Tasks[i].Name, Fn: func() {
			t := ts[i]
			for _, o := range t.ops {
				t.do(o)
			}
			for _, m := range t.views {
				t.look(m)
			}
		}})
	}
	before := raceErrors()
	res.Out = simrt.Run(s.Cfg, defs)
	if raceErrors() != before {
		for _, rep := range strings.Split(raceReports(), "WARNING: DATA RACE") {
			if msg, ok := raceFinding(rep); ok {
				res.add("C18", "race "+msg, "data race: "+msg)
			} else if strings.Contains(rep, " at 0x") {
				res.Probes["reports outside the code under test"]++
			}
		}
	}
	h := fnv.New64a()
	for i, t := range ts {
		res.Ops += t.n
		for _, l := range t.out {
			h.Write([]byte(l))
			if len(res.Trace) < 500 {
				res.Trace = append(res.Trace, fmt.Sprintf("task%d %s", i, l))
			}
		}
	}
	res.HistHash = h.Sum64()
}

func init() {
	Register("race", runRace)
	gens["C18"] = genRace
}

func genRace(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	s := &Spec{Prop: prop, Kind: "race", Seed: seed}
	nd := r.In(1, 3)
	for i := 0; i < nd; i++ {
		d := r.dev("", pickOf(r, "", "", "zero", "carry", "end"))
		d.Pre = r.P(4, 5)
		s.Devs = append(s.Devs, d)
	}
	rest := pickOf(r, 0, 40, 40, 100)
	lib := pickOf(r, 0, 20, 20, 90)
	reg := pickOf(r, 0, 0, 0, 10, 50)
	w := weights{"next": 4, "get": 3, "list": 3, "create": 3, "del": 2, "epin": 2, "mac": 3, "edata": 2, "ddata": 2, "dpin": 1}
	if r.P(1, 3) { // few kinds together
		w = weights{}
		for i := 0; i < 3; i++ {
			w[wOrder[r.N(len(wOrder)-1)]] += 3
		}
	}
	nt := r.In(2, 5)
	total := 0
	for t := 0; t < nt; t++ {
		var ops []Op
		for n := r.In(1, 6); len(ops) < n; {
			dev := r.N(nd)
			switch {
			case r.pct(lib):
				o := Op{K: "lib-" + libOps[r.N(len(libOps))], Dev: dev, Args: make([]int, aNum)}
				o.Args[aCap] = pickOf(r, 0, 0, 0, 1, 2)
				o.Data, o.Act, o.Mac = r.data(), r.act(), pickOf(r, "cmac", "hmac")
				if r.P(1, 4) {
					o.Args[aIV] = -1
				}
				if r.P(1, 3) {
					o.Args[aScr] = 1
				}
				if o.K == "lib-hexd" {
					o.Raw = r.hex(8)
				}
				ops = append(ops, o)
			case r.pct(reg):
				ops = append(ops, Op{K: pickOf(r, "r-store", "r-store", "r-find", "r-list", "r-del"), Dev: dev})
			case r.P(1, 8):
				ops = append(ops, Op{K: "look", Dev: dev})
			case r.P(1, 14):
				ops = append(ops, Op{K: "scrib", Dev: dev, N: r.N(2)})
			default:
				o := r.crypto(r.weighted(w), dev, s.Devs[dev])
				o.REST = r.pct(rest)
				ops = append(ops, o)
			}
		}
		total += len(ops)
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("caller%d", t), Ops: ops})
	}
	s.Cfg = r.cfg(seed, total*300)
	return s
}
