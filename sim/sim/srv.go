//go:build srvcmd

package sim

import (
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	stdlog "log"
	"os"
	"strings"
	"syscall"

	servermain "github.com/moov-io/dukpt/cmd/server"

	"verif/ref"
	"verif/simnet"
	"verif/simrt"
)

// The "srv" scenario runs the real server program against a simulated network:
// clients that are quick, slow, stalled or vanish, signals and listener
// failures at seeded moments.

const (
	srvMain  = "127.0.0.1:8200"
	srvAdmin = "127.0.0.1:9200"
	// what a setting says that another one overrides
	srvOther      = "127.0.0.1:8300"
	srvOtherAdmin = "127.0.0.1:9300"
	// exitBound is how long after its cause the process may still be there:
	// reading and answering what is under way on both listeners, with reserve.
	exitBound = 180 * sec
	// reclaimBound is how long a connection may exist without an answer.
	reclaimBound = 150 * sec
)

type srvWorld struct {
	secrets *secrets
	s       *Spec
	res     *RunResult
	n       *simnet.Net
	iks     []string
	causeEv int64
	causeT  int64
	wants   []string
	cause   string
	want    string // text the report has to contain
	exitEv  int64
	exited  bool
	code    int
	killed  bool
	hang    bool
	hist    []string
	probes  []*probe
	sigT    int64 // first signal, plus 1
}

// probe is a request of a client that behaves, and what became of it.
type probe struct {
	what   string
	t      int64
	ev     int64
	refuse bool
	c      *simnet.Conn
	k      int
	admin  bool
}

func (w *srvWorld) note(f string, a ...any) {
	w.hist = append(w.hist, fmt.Sprintf("%.6fs ", float64(simrt.Now())/1e9)+fmt.Sprintf(f, a...))
}

func (w *srvWorld) setCause(what, want string) {
	// failures at about the same time may be reported by any one of them
	if want != "" && (w.causeEv == 0 || w.want != "" && simrt.Now() <= w.causeT+sec) {
		w.wants = append(w.wants, want)
	}
	if w.causeEv == 0 {
		w.causeEv = w.n.Tick()
		w.causeT = simrt.Now()
		w.cause, w.want = what, want
	}
}

var srvLog *os.File

func srvOutput() *os.File {
	if srvLog == nil {
		f, err := os.CreateTemp("", "vsimlog")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		srvLog = f
	}
	srvLog.Truncate(0)
	srvLog.Seek(0, io.SeekStart)
	return srvLog
}

func (w *srvWorld) request(o Op) []byte {
	ik := "00"
	if o.Dev < len(w.iks) {
		ik = w.iks[o.Dev]
	}
	switch o.K {
	case "version":
		return rawRequest("GET", "/version", "", "", "")
	case "live":
		return rawRequest("GET", "/live", "", "", "")
	}
	b := &world{devs: w.s.Devs, iks: w.iks}
	if o.Net != nil {
		o.Net = &Net{Origin: o.Net.Origin}
	}
	return b.buildRequest(o, ik, "")
}

func adminOp(o Op) bool { return o.K == "version" || o.K == "live" }

// polite tells whether the client of this request behaves.
func polite(o Op) bool {
	n := o.Net
	return o.K != "raw" && (n == nil || n.Pace == 0 && n.StallFor == 0 && n.Cut == 0 && !n.RDie && n.RStall == 0)
}

func (w *srvWorld) client(ti int, t Task) {
	var c *simnet.Conn
	k := 0
	for oi, o := range t.Ops {
		if o.Think > 0 {
			simrt.Sleep(o.Think)
		}
		addr := srvMain
		if adminOp(o) {
			addr = srvAdmin
		}
		if c != nil && (c.Closed || c.Addr != addr) {
			c = nil
		}
		n := o.Net
		if n == nil {
			n = &Net{}
		}
		fresh := false
		p := &probe{what: fmt.Sprintf("task%d.%d %s", ti, oi, o.K), t: simrt.Now(), ev: w.n.Tick(), admin: adminOp(o)}
		if c == nil {
			var err error
			c, err = w.n.Dial(addr)
			for try := int64(0); err != nil && try < w.s.P["retry"] && w.causeEv == 0; try++ {
				simrt.Sleep(100_000)
				p.t = simrt.Now()
				c, err = w.n.Dial(addr)
			}
			k = 0
			fresh = true
			if err != nil {
				w.note("%s: %v", p.what, err)
				p.refuse = true
				if polite(o) {
					w.probes = append(w.probes, p)
				}
				c = nil
				continue
			}
		}
		w.res.Ops++
		if !polite(o) {
			c.Slow = true
		}
		raw := w.request(o)
		for i := 1; i < o.M; i++ { // a crowd that does the same and never goes on
			if x, err := w.n.Dial(addr); err == nil {
				x.Slow = true
				b := raw
				if n.StallFor != 0 {
					b = raw[:min(len(raw), n.StallAt)]
				}
				if n.RStall != 0 {
					x.StallReading(1 << 60)
				}
				if len(b) > 0 {
					x.Send(0, b)
				}
				w.res.Faults["client of a crowd stalls"]++
			}
		}
		chunk := n.Chunk
		if chunk <= 0 {
			chunk = len(raw)
		}
		delay := int64(0)
		stalled := false
		for off := 0; off < len(raw); off += chunk {
			e := min(off+chunk, len(raw))
			if n.Cut > 0 && off >= n.Cut {
				break
			}
			if n.StallFor != 0 && !stalled && e > n.StallAt {
				stalled = true
				if n.StallFor < 0 {
					break
				}
				delay += n.StallFor
			}
			c.Send(delay, raw[off:e])
			delay += n.Pace
		}
		if n.StallFor != 0 {
			w.res.Faults["client stalls while sending"]++
		}
		if n.Pace > 0 {
			w.res.Faults["slow client"]++
		}
		if n.RStall != 0 {
			w.res.Faults["client stalls while reading"]++
			u := int64(1) << 60
			if n.RStall > 0 {
				u = simrt.Now() + n.RStall
			}
			c.StallReading(u)
		}
		if n.Cut > 0 {
			w.res.Faults["client vanishes while sending"]++
			simrt.Sleep(delay)
			c.Die()
			c = nil
			continue
		}
		if n.RDie {
			w.res.Faults["client vanishes before the answer"]++
			if n.Delay > 0 {
				simrt.Sleep(n.Delay)
			}
			c.Die()
			c = nil
			continue
		}
		if polite(o) && fresh {
			p.c, p.k = c, k
			w.probes = append(w.probes, p)
		}
		k++
		cc, kk := c, k
		simrt.BlockUntil(readyFn(func() bool {
			return cc.Closed || len(cc.Reqs) >= kk && cc.Reqs[kk-1].DoneEv > 0
		}), simrt.Now()+400*sec, "answer")
		if n.RStall != 0 {
			c.StallReading(0)
		}
		if len(c.Reqs) >= k {
			r := c.Reqs[k-1]
			w.note("%s on conn%d -> %d %.60q", p.what, c.ID, r.Code, r.Body)
		} else {
			w.note("%s on conn%d -> closed without an answer", p.what, c.ID)
		}
		if o.N != 1 { // one request per connection
			if o.N == 2 {
				c.CloseSend()
			}
			if o.N != 3 { // 3: leaves the connection open and idle
				c.Die()
			}
			c = nil
		}
	}
}

func (w *srvWorld) environment(t Task) {
	for _, o := range t.Ops {
		if o.Think > 0 {
			simrt.Sleep(o.Think)
		}
		switch o.K {
		case "signal":
			sig := syscall.SIGTERM
			if o.N == 1 {
				sig = syscall.SIGINT
			}
			w.res.Faults["signal"]++
			w.note("signal %v", sig)
			w.setCause("signal "+sig.String(), "")
			if w.sigT == 0 {
				w.sigT = simrt.Now() + 1
			}
			if !simrt.Raise(sig) {
				w.note("no handler: the process is killed")
				w.killed = true
				simrt.Exit(128 + int(sig))
			}
		case "failmain", "failadmin":
			addr := srvMain
			if o.K == "failadmin" {
				addr = srvAdmin
			}
			err := errors.New("accept tcp " + addr + ": simulated listener failure " + fmt.Sprint(o.N))
			if w.n.FailListener(addr, err) {
				w.res.Faults["listener fails"]++
				w.note("%v", err)
			}
		}
	}
	simrt.Sleep(exitBound + sec)
	w.hang = true
	simrt.Exit(99)
}

// wantReport is what the report of a failure has to contain.
func wantReport(what string) string {
	switch {
	case strings.HasSuffix(what, "in use"):
		return "address already in use"
	case strings.HasSuffix(what, "missing"):
		return "no such file or directory"
	}
	return "simulated listener failure"
}

func runSrv(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := &srvWorld{s: s, res: res, n: simnet.Reset()}
	for _, d := range s.Devs {
		ik := "00"
		if rd, err := ref.NewDev(d.Alg, d.Type, d.BDK, d.KSN); err == nil {
			ik = rd.IKHex()
		}
		w.iks = append(w.iks, ik)
	}
	simrt.Env = nil
	var args []string
	set := func(how int64, flag, env, addr, other string) {
		switch how {
		case 1:
			args = append(args, flag, addr)
		case 2: // the environment overrides the option
			args = append(args, flag, other)
			fallthrough
		case 0:
			simrt.Env = append(simrt.Env, [2]string{env, addr})
		}
	}
	set(s.P["byflag"], "-http.addr", "HTTP_BIND_ADDRESS", srvMain, srvOther)
	how := s.P["byflag"]
	if s.P["adminby"] > 0 {
		how = s.P["adminby"] - 1
	}
	set(how, "-admin.addr", "HTTP_ADMIN_BIND_ADDRESS", srvAdmin, srvOtherAdmin)
	if s.P["json"] == 1 {
		simrt.Env = append(simrt.Env, [2]string{"LOG_FORMAT", "json"})
	}
	if s.P["tls"] > 0 {
		simrt.Env = append(simrt.Env, [2]string{"HTTPS_CERT_FILE", "/sim/cert.pem"}, [2]string{"HTTPS_KEY_FILE", "/sim/key.pem"})
		w.n.Certs["/sim/cert.pem"] = true
		w.n.Certs["/sim/key.pem"] = s.P["tls"] == 1
		if s.P["tls"] == 2 {
			res.Faults["key file missing"]++
		}
	}
	if s.P["busymain"] == 1 {
		w.n.Busy[srvMain] = true
		res.Faults["address in use"]++
	}
	if s.P["busyadmin"] == 1 {
		w.n.Busy[srvAdmin] = true
		res.Faults["address in use"]++
	}
	oldOut, oldErr := os.Stdout, os.Stderr
	out := srvOutput()
	os.Stdout, os.Stderr = out, out
	if w.secrets = newSecrets(s); w.secrets != nil {
		stdlog.SetOutput(out)
	}
	flagReset("server", args)
	w.n.OnFail = func(what string) {
		w.note("%s", what)
		w.setCause(what, wantReport(what))
	}
	defs := []simrt.TaskDef{{Name: "main", Fn: func() {
		defer func() {
			if simrt.Aborting() {
				return
			}
			if r := recover(); r != nil {
				res.add("C16", "crash", fmt.Sprintf("the server program crashes (%v) %s", r, w.after()))
				simrt.Exit(2)
			}
		}()
		servermain.Main()
		simrt.Exit(0)
	}}}
	for ti, t := range s.Tasks {
		if t.Name == "env" {
			defs = append(defs, simrt.TaskDef{Name: "env", Fn: func() { w.environment(t) }})
		} else {
			defs = append(defs, simrt.TaskDef{Name: t.Name, Fn: func() { w.client(ti, t) }})
		}
	}
	simrt.OnExit = func(code int) {
		if !w.exited {
			w.exited, w.code, w.exitEv = true, code, w.n.Tick()
			w.note("exit %d", code)
		}
	}
	res.Out = simrt.Run(s.Cfg, defs)
	simrt.OnExit = nil
	simrt.Env = nil
	os.Stdout, os.Stderr = oldOut, oldErr
	out.Seek(0, io.SeekStart)
	logs, _ := io.ReadAll(out)
	w.judge(string(logs))
	if w.secrets != nil {
		stdlog.SetOutput(os.Stderr)
		w.secrets.judgeLog(res, string(logs))
	}
	res.Trace = append(res.Trace, w.hist...)
	for _, l := range strings.Split(strings.TrimSpace(string(logs)), "\n") {
		res.Trace = append(res.Trace, "log: "+l)
	}
	h := fnv.New64a()
	for _, l := range w.hist {
		h.Write([]byte(l))
	}
	res.HistHash = h.Sum64()
}

func (w *srvWorld) after() string {
	if w.causeEv == 0 {
		return "without cause"
	}
	return "after: " + w.cause
}

func containsAny(s string, subs []string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func (w *srvWorld) judge(logs string) {
	res := w.res
	end := res.Out.Clock
	w.judgeSettings(end, logs)
	if res.Out.Exited {
		end = res.Out.ExitTime
	}
	if w.hang {
		w.exited = false // that was the simulator
	}
	if res.Out.Crash != "" {
		res.add("C16", "crash", "the server program crashes "+w.after()+": "+res.Out.Crash)
		res.add("C20", "crash", "the server program crashes "+w.after()+": "+res.Out.Crash)
		return
	}
	for _, f := range res.Findings {
		if f.Oracle == "crash" {
			return
		}
	}
	if (res.Out.Deadlock != "" || res.Out.StepLimit || w.hang) && w.causeEv != 0 {
		res.add("C16", "hang", fmt.Sprintf("the process is still there %d s %s (%s)", (end-w.causeT)/sec, w.after(), res.Out.Deadlock))
		return
	}
	if !w.killed && w.exited && w.causeEv == 0 {
		res.add("C20", "exits", fmt.Sprintf("the process ends with code %d although nothing told it to; output: %.300q", w.code, logs))
		res.add("C16", "exits", fmt.Sprintf("the process ends with code %d although nothing told it to", w.code))
	}
	if w.causeEv != 0 && end-w.causeT > exitBound {
		res.add("C16", "bound", fmt.Sprintf("the process exits only %d s %s", (end-w.causeT)/sec, w.after()))
	}
	if w.want != "" && (w.sigT == 0 || w.sigT > w.causeT+sec) && !containsAny(logs, w.wants) {
		res.add("C16", "report", fmt.Sprintf("%s is not reported; output: %.300q", w.cause, logs))
	}
	for _, c := range w.n.Conns {
		if c.Addr == srvMain && c.Accepted() && w.causeEv != 0 && c.AcceptT > w.causeT+5*sec {
			res.add("C16", "accepts", fmt.Sprintf("a connection is accepted %d s %s", (c.AcceptT-w.causeT)/sec, w.after()))
		}
		last := c.AcceptT
		for _, r := range c.Reqs {
			if w.causeEv > 0 && r.HdrEv < w.causeEv && (r.DoneEv == 0 || r.DoneEv > w.causeEv) {
				res.Probes["requests under way at the cause"]++
			}
			if r.DoneEv > 0 {
				res.Probes["requests answered"]++
			}
			if r.Panicked {
				res.add("C09", "panic", "the handler crashed serving "+r.Line)
				continue
			}
			if r.DoneEv == 0 {
				switch {
				case r.Cut == "connection reset by peer" || c.GoneT >= 0 && c.GoneT <= end:
				case r.Cut == "i/o timeout" && c.Slow:
				case r.Cut != "":
					res.add("C16", "cut", fmt.Sprintf("%s, accepted before, is cut off (%s) %s", r.Line, r.Cut, w.after()))
				case w.exited:
					res.add("C16", "unanswered", fmt.Sprintf("the process exits while %s, which it had accepted, is not answered (%s)", r.Line, w.after()))
				}
				continue
			}
			if r.Code < 100 || c.Addr == srvMain && r.Code == 200 && !strings.HasSuffix(r.Line, "/ping") && !json.Valid(r.Body) {
				res.add("C16", "answer", r.Line+" is not answered properly")
			}
			if r.DoneT > last {
				last = r.DoneT
			}
		}
		// reclaim
		until := end
		if c.Closed && c.ClosedT < until {
			until = c.ClosedT
		}
		if c.GoneT >= 0 && c.GoneT < until {
			until = c.GoneT
		}
		if w.causeEv != 0 && w.causeT < until {
			until = w.causeT
		}
		if c.Accepted() && until-last > reclaimBound {
			res.add("C20", "reclaim", fmt.Sprintf("a connection on which nothing was completed for %d s is kept open (conn%d at %s)", (until-last)/sec, c.ID, c.Addr))
		}
	}
	// clients that behave are served as long as nothing told the server to stop
	for _, p := range w.probes {
		if w.causeEv != 0 && p.t+10*sec > w.causeT || p.t+10*sec > end || p.t < sec {
			continue
		}
		what := "the server"
		if p.admin {
			what = "the admin server"
		}
		switch {
		case p.refuse:
			res.add("C20", "refused", fmt.Sprintf("%s refuses %s %.3f s after the start although nothing told it to stop", what, p.what, float64(p.t)/1e9))
		case len(p.c.Reqs) <= p.k || p.c.Reqs[p.k].DoneEv == 0 || p.c.Reqs[p.k].DoneT-p.t > 5*sec:
			res.add("C20", "not-served", fmt.Sprintf("%s does not answer %s within 5 s", what, p.what))
		default:
			res.Probes["probes answered"]++
		}
	}
}

// judgeSettings is C21: the server listens where and how it was told to.
func (w *srvWorld) judgeSettings(end int64, logs string) {
	res := w.res
	for _, a := range w.n.Bound {
		if a != srvMain && a != srvAdmin {
			res.add("C21", "elsewhere", fmt.Sprintf("the server listens at %s, where it was not told to", a))
		}
	}
	wantTLS := w.s.P["tls"] > 0
	for _, c := range w.n.Conns {
		if !c.Accepted() {
			continue
		}
		switch {
		case c.Addr == srvMain && wantTLS && !c.TLS:
			res.add("C21", "plain-text", fmt.Sprintf("a certificate and a key are configured, but conn%d is served in plain text", c.ID))
		case c.Addr == srvMain && !wantTLS && c.TLS:
			res.add("C21", "tls", fmt.Sprintf("no certificate and key are configured, but conn%d is served over TLS", c.ID))
		case c.TLS && c.TLSMin < tls.VersionTLS12:
			res.add("C21", "old-tls", fmt.Sprintf("conn%d may fall back to TLS version %#x", c.ID, c.TLSMin))
		}
	}
	if w.causeEv == 0 || w.causeT > 2*sec {
		have := map[string]bool{}
		for _, a := range w.n.Bound {
			have[a] = true
		}
		for _, a := range []string{srvMain, srvAdmin} {
			if !have[a] && end > 2*sec {
				res.add("C21", "not-bound", "the server never listens at "+a+", where it was told to")
			}
		}
	}
	if w.want != "" && w.s.P["tls"] == 2 && strings.HasSuffix(w.cause, "missing") {
		if (w.hang || res.Out.Deadlock != "" || res.Out.StepLimit) && w.sigT == 0 {
			res.add("C21", "keeps-running", "the server keeps running without the TLS it was told to use")
		} else if (w.sigT == 0 || w.sigT > w.causeT+sec) && !containsAny(logs, w.wants) {
			res.add("C21", "report", fmt.Sprintf("%s is not reported; output: %.300q", w.cause, logs))
		}
	}
}

func init() {
	Register("srv", runSrv)
	gens["C21"] = genSrv
	gens["C16"] = genSrv
	gens["C20"] = genSrv
}

func genSrv(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	s := &Spec{Prop: prop, Kind: "srv", Seed: seed, P: map[string]int64{}}
	s.P["byflag"] = int64(r.N(2))
	s.P["json"] = int64(r.N(2))
	s.P["retry"] = int64(pickOf(r, 0, 20, 40))
	if r.P(1, 5) {
		s.P["tls"] = 1
	}
	if prop == "C21" {
		s.P["byflag"], s.P["adminby"] = int64(r.N(3)), int64(r.In(1, 3))
		s.P["tls"] = int64(pickOf(r, 0, 0, 1, 1, 2))
		s.P["retry"] = int64(r.In(20, 40))
	}
	nd := r.In(1, 2)
	for i := 0; i < nd; i++ {
		s.Devs = append(s.Devs, r.dev("", ""))
	}
	long := prop == "C20"
	if prop == "C16" && r.P(1, 10) {
		switch r.N(3) {
		case 0:
			s.P["busymain"] = 1
		case 1:
			s.P["busyadmin"] = 1
		case 2:
			s.P["tls"] = 2
		}
	}
	window := pickOf(r, 0, 1_000_000, 2*sec, 40*sec)
	if long {
		window = int64(r.In(1, 900)) * sec
	}
	nt := r.In(1, 5)
	total := 0
	kinds := []string{"ping", "create", "create", "get", "list", "next", "epin", "mac", "edata", "ddata", "version", "live", "get"}
	for t := 0; t < nt; t++ {
		var ops []Op
		bad := r.pct(55)
		for n := r.In(1, 5); len(ops) < n; {
			dev := r.N(nd)
			o := r.crypto(kinds[r.N(len(kinds))], dev, s.Devs[dev])
			o.Think = int64(r.U() % uint64(window+1))
			if r.P(1, 3) {
				o.Think = 0
			}
			o.N = pickOf(r, 0, 0, 1, 1, 2, 3)
			if bad && r.P(2, 3) {
				n := &Net{}
				switch r.N(7) {
				case 0:
					n.Chunk, n.Pace = r.In(1, 30), r.ms(1, 3000)
				case 1:
					n.Chunk, n.StallAt, n.StallFor = r.In(1, 40), r.In(0, 200), -1
				case 2:
					n.Chunk, n.StallAt, n.StallFor = r.In(1, 40), r.In(0, 200), int64(r.In(1, 40))*sec
				case 3:
					n.RStall = -1
				case 4:
					n.RStall = int64(r.In(1, 40)) * sec
				case 5:
					n.Chunk, n.Cut = r.In(1, 40), r.In(1, 150)
				case 6:
					n.RDie, n.Delay = true, r.ms(0, 1)
				}
				o.Net = n
			}
			if long && r.P(1, 6) {
				if o.Net == nil {
					o.Net = &Net{}
				}
				o.Net.Origin = pickOf(r, "https://a.test", "null", "://", "https://"+r.hex(20)+".test")
			}
			if long && bad && r.P(1, 4) {
				o.K, o.Raw = "raw", r.hostile(s, dev)
				if r.P(2, 3) {
					o.Net = nil
				}
			}
			ops = append(ops, o)
		}
		total += len(ops)
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	if r.P(1, 30) { // a crowd
		dev := r.N(nd)
		o := r.crypto(kinds[r.N(len(kinds))], dev, s.Devs[dev])
		o.Think = int64(r.U() % uint64(window/2+1))
		o.M = r.sizeTo(1100)
		o.Net = &Net{StallAt: pickOf(r, 0, r.In(1, 60), r.In(1, 250)), StallFor: -1, Chunk: 10}
		if r.P(1, 3) {
			o.Net = &Net{RStall: -1}
		}
		var after []Op
		for k := r.In(1, 6); k > 0; k-- {
			x := r.crypto(kinds[r.N(len(kinds))], dev, s.Devs[dev])
			x.Think = int64(r.In(0, 12)) * sec
			after = append(after, x)
		}
		s.Tasks = append(s.Tasks, Task{Name: "crowd", Ops: []Op{o}}, Task{Name: "after", Ops: append([]Op{{K: "ping", Think: o.Think + 2*sec}}, after...)})
		total += o.M
	}
	var env []Op
	if prop == "C16" && r.P(1, 5) {
		env = append(env, Op{K: pickOf(r, "failmain", "failadmin"), N: r.In(1, 99), Think: int64(r.U() % uint64(window+1))})
	}
	if prop == "C21" && r.P(1, 10) {
		switch r.N(4) {
		case 0:
			s.P["busymain"] = 1
		case 1:
			s.P["busyadmin"] = 1
		default:
			env = append(env, Op{K: pickOf(r, "failmain", "failadmin"), N: r.In(1, 99), Think: int64(r.U() % uint64(window+1))})
		}
	}
	think := int64(r.U() % uint64(2*window+1))
	if r.P(1, 6) && !long {
		think = 0
	}
	if prop == "C21" {
		think += int64(r.In(0, 4)) * sec
	}
	if long {
		think = window + int64(r.In(0, 600))*sec
	}
	env = append(env, Op{K: "signal", N: r.N(2), Think: think})
	if r.P(1, 5) {
		env = append(env, Op{K: "signal", N: r.N(2), Think: r.ms(0, 2000)})
	}
	s.Tasks = append(s.Tasks, Task{Name: "env", Ops: env})
	switch r.N(4) {
	case 0:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolPCT, Depth: r.In(1, 8), Horizon: 200 + total*300}
	case 1:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolUniform, Gap: pickOf(r, 50, 200), Mask: pkgMask("/cmd/server", "/pkg/server")}
	case 2:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolUniform, Gap: pickOf(r, 2, 3, 8), Mask: pkgMask("/cmd/server")}
	default:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolUniform, Gap: pickOf(r, 1, 5, 30, 300)}
	}
	if total > 100 && s.Cfg.Mask == 0 && s.Cfg.Gap < 100 {
		s.Cfg.Gap = 100 // a crowd is costly
	}
	if r.P(1, 2) {
		// the window of time matters: steps take longer
		s.Cfg.StepNS = int64(pickOf(r, 100, 1000, 20_000))
		if total > 100 { // the work of a crowd takes far less than the 5 s of the oracles
			s.Cfg.StepNS = 100
		}
	}
	return s
}
