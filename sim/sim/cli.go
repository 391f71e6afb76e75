//go:build clicmd

package sim

import (
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/moov-io/dukpt/cmd/dukptcli"

	"verif/ref"
	"verif/simrt"
)

// The "cli" scenario runs the real command-line tool, one simulated process
// per invocation, with outputs that fail at seeded points.

// cliProc is one simulated process.
type cliProc struct {
	code int
	done bool
	pan  string
}

func (p *cliProc) ProcExit(code int) bool {
	if !p.done {
		p.code, p.done = code, true
	}
	return true
}

// cliOut is what became of an invocation.
type cliOut struct {
	code     int
	out, err string
	pan      string
	steps    int64
}

func (o cliOut) String() string {
	s := fmt.Sprintf("exit %d, output %.300q", o.code, o.out)
	if o.err != "" {
		s += fmt.Sprintf(", errors %.200q", o.err)
	}
	if o.pan != "" {
		s += fmt.Sprintf(", crashed: %.200s", o.pan)
	}
	return s
}

// cliTool runs invocations one at a time (the processes share nothing but the
// simulator's memory, so that nothing of one is visible to another).
type cliTool struct {
	busy bool
	res  *RunResult
}

var cliFiles [2]*os.File

func cliFile(i int) *os.File {
	if cliFiles[i] == nil {
		f, err := os.CreateTemp("", "vsimcli")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		cliFiles[i] = named(f)
	}
	cliFiles[i].Truncate(0)
	cliFiles[i].Seek(0, io.SeekStart)
	return cliFiles[i]
}

// named is the same file under the name the tool knows it by.
func named(f *os.File) *os.File {
	defer f.Close()
	fd, err := syscall.Dup(int(f.Fd()))
	if err != nil {
		panic(err)
	}
	return os.NewFile(uintptr(fd), "/dev/stdout")
}

func slurp(f *os.File) string {
	f.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(f)
	return string(b)
}

// invoke is one process: the tool with these arguments and this output. n is
// the number of bytes a torn output takes, or the number of steps after which
// a transient failure of it is over.
func (c *cliTool) invoke(args []string, fault string, n int) (o cliOut) {
	simrt.Block(readyFn(func() bool { return !c.busy }), "tool")
	if simrt.Aborting() {
		return
	}
	c.busy = true
	defer func() { c.busy = false }()
	so, se := os.Stdout, os.Stderr
	stdout, stderr := cliFile(0), cliFile(1)
	out := stdout
	var lim syscall.Rlimit
	restore := func() {}
	over := int64(0)
	switch fault {
	case "closed":
		f, err := os.Open("/dev/null")
		if err != nil {
			panic(err)
		}
		out = named(f)
		out.Close()
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		out = named(f)
		restore = func() { out.Close() }
	case "rdonly":
		f, err := os.Open("/dev/null")
		if err != nil {
			panic(err)
		}
		out = named(f)
		restore = func() { out.Close() }
	case "pipe":
		var fds [2]int
		if err := syscall.Pipe(fds[:]); err != nil {
			panic(err)
		}
		syscall.Close(fds[0])
		f := os.NewFile(uintptr(fds[1]), "/dev/stdout")
		out = f
		restore = func() { f.Close() }
	case "torn", "transient":
		at := n
		if fault == "transient" {
			n = 0
		}
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: lim.Max})
		restore = func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) }
		if fault == "transient" {
			over = max(1, int64(at))
		}
	}
	os.Stdout, os.Stderr = out, stderr
	back := func() {
		restore()
		os.Stdout, os.Stderr = so, se
	}
	flagReset("dukptcli", args)
	p := &cliProc{}
	t := simrt.SpawnWith("process", p, func() {
		defer func() {
			if simrt.Aborting() {
				return
			}
			r := recover()
			if r == nil || p.done {
				return
			}
			p.done = true
			p.code = 2
			if err, ok := r.(error); ok && errors.Is(err, flag.ErrHelp) {
				p.code = 0
				return
			}
			if s := fmt.Sprint(r); !usageError(s) {
				p.pan = s
			}
		}()
		dukptcli.Main()
		if !p.done {
			p.done = true
		}
	})
	if over > 0 {
		simrt.At(t, over, restore)
	}
	simrt.Block(readyFn(func() bool { return p.done || t.Ready() }), "process")
	back()
	if simrt.Aborting() {
		return
	}
	o.code, o.pan, o.steps = p.code, p.pan, simrt.Local(t)
	o.out, o.err = slurp(stdout), slurp(stderr)
	return o
}

// usageError tells the flag package's own complaints (which end the process
// with status 2) from crashes.
func usageError(s string) bool {
	for _, x := range []string{"flag provided but not defined", "flag needs an argument", "invalid value", "invalid boolean", "bad flag syntax"} {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

// cliCall is one invocation in terms of the documented options.
type cliCall struct {
	K                               string
	Alg, KType                      string
	BDK, KSN, IK, TK, Pin, Pan, Fmt string
	Data, Act, Mac, IV              string
}

type cliOpt struct{ f, v string }

// opts are the documented options of a call.
func (c cliCall) opts() []cliOpt {
	var o []cliOpt
	add := func(f, v string) {
		if v != "" {
			o = append(o, cliOpt{f, v})
		}
	}
	add("algorithm", c.Alg)
	add("algorithm.key_type", c.KType)
	p := c.K
	switch c.K {
	case "ik":
		add("ik.bdk", c.BDK)
		add("ik.ksn", c.KSN)
	case "tk":
		add("tk.ik", c.IK)
		add("tk.ksn", c.KSN)
	case "ep", "dp":
		add(p+".tk", c.TK)
		add(p+".ksn", c.KSN)
		if c.K == "ep" {
			add("ep.pin", c.Pin)
		} else {
			add("dp.pin", c.Data)
		}
		add(p+".pan", c.Pan)
		add(p+".format", c.Fmt)
	case "gm":
		add("gm.tk", c.TK)
		add("gm.ksn", c.KSN)
		add("gm.data", c.Data)
		add("gm.action", c.Act)
		add("gm.type", c.Mac)
	case "en", "de":
		add(p+".tk", c.TK)
		add(p+".ksn", c.KSN)
		add(p+".data", c.Data)
		add(p+".iv", c.IV)
		add(p+".action", c.Act)
	}
	return o
}

// line writes options the ways a shell user does.
func cliLine(k string, opts []cliOpt, style int) []string {
	dash := "-"
	if style&1 != 0 {
		dash = "--"
	}
	var a []string
	for _, o := range opts {
		if style&2 != 0 {
			a = append(a, dash+o.f+"="+o.v)
		} else {
			a = append(a, dash+o.f, o.v)
		}
	}
	if k == "" {
		return a
	}
	if style&4 != 0 {
		return append(a, dash+k)
	}
	return append([]string{dash + k}, a...)
}

// callFor is the invocation an operator makes for an operation on a device at
// its own counter.
func callFor(o Op, d Dev, rd *ref.Dev, tc uint32) cliCall {
	c := cliCall{K: o.K, Alg: d.Alg, BDK: d.BDK, KSN: rd.KSNAt(tc), IK: rd.IKHex(), TK: fmt.Sprintf("%x", rd.TK(tc)),
		Pin: o.Pin, Pan: o.Pan, Data: o.Data, Act: o.Act, IV: o.IV}
	if d.Alg == "aes" {
		c.KType = strings.ToLower(d.Type)
		c.Mac = o.Mac
	} else {
		c.Fmt = o.Fmt
		if c.Fmt == "" {
			c.Fmt = "ISO-0"
		}
		if o.Mac == "hmac" {
			c.Mac = ""
		}
	}
	if c.IV == "" {
		c.IV = strings.Repeat("00", rd.Block())
	}
	return c
}

// ---- C17 ---------------------------------------------------------------------

type cliWorld struct {
	secrets *secrets
	s       *Spec
	res     *RunResult
	tool    *cliTool
	hist    []string
}

func (w *cliWorld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

// spoil applies a mistake to the options: "drop FLAG", "set FLAG VALUE".
func spoilOpts(opts []cliOpt, how string) []cliOpt {
	p := strings.SplitN(how, " ", 3)
	if len(p) < 2 {
		return opts
	}
	var out []cliOpt
	found := false
	for _, o := range opts {
		if o.f == p[1] {
			found = true
			if p[0] == "drop" {
				continue
			}
			o.v = ""
			if len(p) == 3 {
				o.v = p[2]
			}
		}
		out = append(out, o)
	}
	if !found && p[0] == "set" && len(p) == 3 {
		out = append(out, cliOpt{p[1], p[2]})
	}
	return out
}

func optOf(opts []cliOpt, f, def string) string {
	for _, o := range opts {
		if o.f == f {
			return o.v
		}
	}
	return def
}

// refused tells whether an invocation cannot be carried out, whatever the tool
// does.
func mustRefuse(k string, opts []cliOpt) string {
	get := func(f string) string { return optOf(opts, f, "") }
	alg := optOf(opts, "algorithm", "des")
	if alg != "des" && alg != "aes" {
		return "unknown algorithm"
	}
	need := map[string][]string{"ik": {"ik.bdk", "ik.ksn"}, "tk": {"tk.ik", "tk.ksn"}, "ep": {"ep.tk", "ep.pin", "ep.pan"}, "dp": {"dp.tk", "dp.pin", "dp.pan"},
		"gm": {"gm.tk", "gm.data"}, "en": {"en.tk", "en.iv", "en.data"}, "de": {"de.tk", "de.iv", "de.data"}}[k]
	if alg == "aes" && k != "ik" && k != "tk" {
		need = append(need, k+".ksn")
	}
	for _, f := range need {
		if get(f) == "" {
			return f + " is missing"
		}
	}
	hexes := map[string][]string{"ik": {"ik.bdk", "ik.ksn"}, "tk": {"tk.ik", "tk.ksn"}, "ep": {"ep.tk"}, "dp": {"dp.tk", "dp.pin"},
		"gm": {"gm.tk"}, "en": {"en.tk", "en.iv"}, "de": {"de.tk", "de.iv", "de.data"}}[k]
	if alg == "aes" && k != "ik" && k != "tk" {
		hexes = append(hexes, k+".ksn")
	}
	for _, f := range hexes {
		if hexLen(get(f)) < 0 {
			return f + " is not hexadecimal"
		}
	}
	key := map[string]string{"ik": "ik.bdk", "tk": "tk.ik"}[k]
	if key == "" {
		key = k + ".tk"
	}
	n := hexLen(get(key))
	if alg == "des" && n != 16 || alg == "aes" && n != 16 && n != 24 && n != 32 {
		return key + " has a wrong length"
	}
	if alg == "aes" && k != "ik" && k != "tk" {
		t := strings.ToUpper(optOf(opts, "algorithm.key_type", "aes128"))
		if k == "gm" {
			t = strings.Replace(t, "HMAC", "AES", 1)
		}
		if aesTypeLen(t) != n {
			return "algorithm.key_type does not fit " + key
		}
	}
	if k == "ep" && !digits(get("ep.pin")) {
		return "ep.pin is not decimal"
	}
	if k == "gm" {
		if a := optOf(opts, "gm.action", "request"); a != "request" && a != "response" {
			return "unknown action"
		}
		if m := optOf(opts, "gm.type", "cmac"); alg == "aes" && m != "cmac" && m != "hmac" {
			return "unknown kind of MAC"
		}
	}
	return ""
}

// expectOut is the right result of an unspoiled call, if there is one only.
func expectOut(o Op, c cliCall, rd *ref.Dev, tc uint32) (want string, ok bool) {
	switch o.K {
	case "ik":
		return rd.IKHex(), true
	case "tk":
		return c.TK, true
	case "gm":
		m, err := rd.MAC(tc, c.Data, c.Act, orDef(c.Mac, "cmac"))
		return m, err == nil
	case "en":
		if hexLen(c.IV) == rd.Block() {
			return rd.Encrypt(tc, c.Data, c.Act, c.IV), true
		}
	case "de":
		if n := hexLen(c.Data); hexLen(c.IV) == rd.Block() && n > 0 && n%rd.Block() == 0 {
			p, err := rd.Decrypt(tc, c.Data, c.Act, c.IV)
			return p, err == nil
		}
	}
	return "", false
}

func orDef(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func resultLine(out string) (string, bool) {
	if strings.HasPrefix(out, "RESULT: ") && strings.HasSuffix(out, "\n") {
		return out[len("RESULT: ") : len(out)-1], true
	}
	return "", false
}

func hasResult(out string) bool {
	return strings.HasPrefix(out, "RESULT") || strings.Contains(out, "\nRESULT")
}

func (w *cliWorld) operator(ti int, t Task) {
	for oi, o := range t.Ops {
		if o.Think > 0 {
			simrt.Sleep(o.Think)
		}
		if o.K == "nop" || o.Dev >= len(w.s.Devs) {
			continue
		}
		d := w.s.Devs[o.Dev]
		rd, err := newRef(d)
		if err != nil {
			continue
		}
		tc := rd.TC()
		c := callFor(o, d, rd, tc)
		opts := spoilOpts(c.opts(), o.Raw)
		args := cliLine(o.K, opts, o.N)
		name := fmt.Sprintf("task%d.%d dukptcli %s", ti, oi, strings.Join(args, " "))
		seed := w.s.Seed + uint64(ti*100+oi)
		simrt.SeedEntropy(seed)
		f := w.tool.invoke(args, "", 0)
		w.res.Ops++
		w.note("%s -> %v", name, f)
		if w.secrets != nil && f.code != 0 {
			w.secrets.refusal(w.res, name, f.out+f.err)
		}
		bad := func(oracle, msg string) {
			w.res.add("C17", oracle, fmt.Sprintf("%.400s: %s", name, msg))
		}
		if f.pan != "" {
			bad("crash", "the tool crashes: "+f.pan)
			continue
		}
		why := mustRefuse(o.K, opts)
		v, complete := resultLine(f.out)
		switch {
		case f.code == 0 && why != "":
			bad("refused", fmt.Sprintf("status zero although %s: %v", why, f))
		case f.code == 0 && v == "" && o.K != "dp" && o.K != "de":
			bad("no-result", fmt.Sprintf("status zero with an empty result: %v", f))
		case f.code == 0 && !complete:
			bad("no-result", fmt.Sprintf("status zero without a complete result line: %v", f))
		case f.code == 0 && o.Raw == "":
			if want, ok := expectOut(o, c, rd, tc); ok && !strings.EqualFold(want, v) {
				bad("wrong", fmt.Sprintf("status zero, but the complete result is %q: %v", want, f))
			}
			if o.K == "ep" && !rd.PinOK(tc, v, c.Pin, c.Pan, c.Fmt) && pinArgs(rd, c.Pin, c.Pan, c.Fmt) == mustOK {
				bad("wrong", fmt.Sprintf("status zero, but the result is not an encryption of the PIN: %v", f))
			}
		case f.code != 0:
			if hasResult(f.out) {
				bad("refused-result", fmt.Sprintf("a refused operation prints a result: %v", f))
			}
			if strings.TrimSpace(f.out+f.err) == "" {
				bad("no-reason", fmt.Sprintf("a refused operation prints no reason: %v", f))
			}
		}
		if o.Fault == "" {
			continue
		}
		simrt.SeedEntropy(seed)
		if o.Fault == "entropy" {
			simrt.EntropyFail = func() bool { return true }
		}
		at := w.tornAt(o, len(f.out))
		if o.Fault == "transient" {
			// near the end, where the output is written
			at = int(f.steps) - at
		}
		x := w.tool.invoke(args, o.Fault, at)
		simrt.EntropyFail = nil
		w.res.Faults["output: "+o.Fault]++
		if w.secrets != nil && x.code != 0 && !hasResult(x.out) {
			w.secrets.refusal(w.res, name, x.out+x.err)
		}
		w.note("  with %s at %d -> %v", o.Fault, at, x)
		if x.pan != "" {
			bad("crash", "the tool crashes when its output fails: "+x.pan)
			continue
		}
		switch {
		case o.Fault == "entropy":
			v, complete := resultLine(x.out)
			if x.code == 0 && (!complete || o.K == "ep" && o.Raw == "" && pinArgs(rd, c.Pin, c.Pan, c.Fmt) == mustOK && !rd.PinOK(tc, v, c.Pin, c.Pan, c.Fmt)) {
				bad("entropy", fmt.Sprintf("status zero although the randomness source failed: %v", x))
			}
			if x.code != 0 && hasResult(x.out) {
				bad("refused-result", fmt.Sprintf("a refused operation prints a result: %v", x))
			}
		case o.Fault == "pipe": // a zero status would be a death by SIGPIPE
		case x.code == 0 && f.code != 0:
			bad("status", fmt.Sprintf("with a failing output (%s) the refused operation ends with status zero: %v", o.Fault, x))
		case o.Fault == "transient" && x.code == 0 && len(x.out) == len(f.out) && hasResult(x.out) && strings.HasSuffix(x.out, "\n"):
			// the output worked again in time
		case x.code == 0 && x.out != f.out:
			bad("lost", fmt.Sprintf("status zero, but of %q only %q was delivered (%s)", f.out, x.out, o.Fault))
		}
	}
}

// tornAt is the number of bytes the output takes.
func (w *cliWorld) tornAt(o Op, n int) int {
	if len(o.Args) == 0 {
		return 0
	}
	if o.Fault == "transient" {
		return o.Args[0]
	}
	if o.Fault != "torn" {
		return 0
	}
	return o.Args[0] * n / 1000
}

func runCLI(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := &cliWorld{s: s, res: res, secrets: newSecrets(s), tool: &cliTool{res: res}}
	var defs []simrt.TaskDef
	for ti, t := range s.Tasks {
		defs = append(defs, simrt.TaskDef{Name: t.Name, Fn: func() { w.operator(ti, t) }})
	}
	runCmd(s, res, defs)
	res.Trace = append(res.Trace, w.hist...)
	h := fnv.New64a()
	for _, l := range w.hist {
		h.Write([]byte(l))
	}
	res.HistHash = h.Sum64()
}

// runCmd runs the tasks and puts the simulator's own files back.
func runCmd(s *Spec, res *RunResult, defs []simrt.TaskDef) {
	so, se, args := os.Stdout, os.Stderr, os.Args
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
	simrt.Env = nil
	res.Out = simrt.Run(s.Cfg, defs)
	simrt.EntropyFail = nil
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	os.Stdout, os.Stderr, os.Args = so, se, args
	if res.Out.Crash != "" {
		res.add(s.Prop, "crash", res.Out.Crash)
	}
	if res.Out.Deadlock != "" || res.Out.StepLimit {
		res.add(s.Prop, "hang", "no progress: "+res.Out.Deadlock)
	}
}

func init() {
	Register("cli", runCLI)
	gens["C17"] = genCLI
}

// argSafe is s as an argument of a process can carry it.
func argSafe(s string) string { return strings.ReplaceAll(s, "\x00", "\x01") }

func genCLI(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	s := &Spec{Prop: prop, Kind: "cli", Seed: seed, P: map[string]int64{}}
	nd := r.In(1, 2)
	for i := 0; i < nd; i++ {
		s.Devs = append(s.Devs, r.dev("", pickOf(r, "", "", "end")))
	}
	for t := r.In(1, 2); t > 0; t-- {
		var ops []Op
		for n := r.In(1, 6); len(ops) < n; {
			dev := r.N(nd)
			o := r.cliOp(dev, s.Devs[dev])
			o.N = r.N(8)
			if r.P(1, 3) {
				o.Raw = r.cliSpoil(o.K)
			}
			if r.P(3, 4) {
				o.Fault = pickOf(r, "closed", "full", "rdonly", "pipe", "torn", "torn", "torn", "transient", "transient", "entropy")
				if o.Fault == "entropy" && (o.Raw != "" || s.Devs[dev].Alg == "aes") {
					o.Fault = "torn" // crypto/rand.Read ends the process itself
				}
				if o.Fault == "transient" {
					o.Args = []int{r.N(20)}
				}
				if o.Fault == "torn" {
					o.Args = []int{pickOf(r, 0, 1, 10, 500, 990, 999, r.N(1000))}
				}
			}
			ops = append(ops, o)
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("operator%d", t), Ops: ops})
	}
	s.Cfg = r.cfg(seed, 2000)
	return s
}

func (r *RNG) cliOp(dev int, d Dev) Op {
	k := pickOf(r, "ik", "tk", "ep", "dp", "gm", "en", "de")
	m := map[string]string{"ep": "epin", "dp": "dpin", "gm": "mac", "en": "edata", "de": "ddata"}[k]
	o := Op{K: k, Dev: dev}
	if m != "" {
		o = r.crypto(m, dev, d)
		o.Data = argSafe(o.Data)
		o.K = k
	}
	if k == "dp" { // mostly genuine
		if rd, err := newRef(d); err == nil && r.P(4, 5) {
			f := o.Fmt
			if c, err := rd.EncryptPin(rd.TC(), o.Pin, o.Pan, f, []byte{1, 2, 3, 4, 5, 6, 7, 8}); err == nil {
				o.Data = c
			}
		}
	}
	return o
}

func (r *RNG) cliSpoil(k string) string {
	fl := map[string][]string{"ik": {"ik.bdk", "ik.ksn"}, "tk": {"tk.ik", "tk.ksn"}, "ep": {"ep.tk", "ep.ksn", "ep.pin", "ep.pan", "ep.format"}, "dp": {"dp.tk", "dp.ksn", "dp.pin", "dp.pan", "dp.format"},
		"gm": {"gm.tk", "gm.ksn", "gm.data", "gm.action", "gm.type"}, "en": {"en.tk", "en.ksn", "en.iv", "en.data", "en.action"}, "de": {"de.tk", "de.ksn", "de.iv", "de.data", "de.action"}}[k]
	f := pickOf(r, append(fl, "algorithm", "algorithm.key_type")...)
	switch r.N(6) {
	case 0, 1:
		return "drop " + f
	case 2:
		return "set " + f + " " + pickOf(r, "zz", "x", "123", "0g", "Request", "AES", "aes512", "-1", "é")
	case 3:
		return "set " + f + " " + r.hex(r.In(1, 40))
	case 4:
		return "set " + f + " " + r.digits(r.In(1, 40))
	}
	return "set " + pickOf(r, "algorithm", "algorithm.key_type", "algorithm.key_type") + " " + pickOf(r, "des", "aes", "aes128", "aes192", "aes256", "AES128", "tdes")
}
