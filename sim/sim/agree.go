//go:build clicmd

package sim

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"strings"

	"github.com/moov-io/base/log"

	"github.com/moov-io/dukpt/pkg/server"

	"verif/ref"
	"verif/simrt"
)

// The "agree" scenario runs the real command-line tool (one simulated process
// per invocation), the real REST service and the library side by side, on the
// same machines, with a bad network between the clients and the service and
// between the clients and the operators of the tool.

// amsg is what a client reports to an operator: an operation the service
// answered, and the view of the machine it belongs to.
type amsg struct {
	id     int
	at     int64
	dev    int
	ksn    string
	ik, tk string
	op     Op
	answer string
}

type agreeWorld struct {
	s       *Spec
	res     *RunResult
	tool    *cliTool
	h       http.Handler
	refs    []*ref.Dev
	box     []*amsg
	id      int
	clients int
	hist    []string
	dup     int // copies of requests under way
}

func (w *agreeWorld) note(f string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }
func (w *agreeWorld) bad(oracle, f string, a ...any) {
	w.res.add("C19", oracle, fmt.Sprintf(f, a...))
}

// respCapture is a response that arrives at once.
type respCapture struct {
	h    http.Header
	code int
	b    bytes.Buffer
}

func (c *respCapture) Header() http.Header { return c.h }
func (c *respCapture) WriteHeader(n int) {
	if c.code == 0 {
		c.code = n
	}
}
func (c *respCapture) Write(p []byte) (int, error) { c.WriteHeader(200); return c.b.Write(p) }

// serve is one execution of a request by the service.
func (w *agreeWorld) serve(o Op, ik string) (doc wire, code int, err error) {
	raw := (&world{devs: w.s.Devs, spec: w.s}).buildRequest(o, ik, "")
	r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw)))
	if err != nil {
		return doc, 0, err
	}
	c := &respCapture{h: http.Header{}}
	if pan := libGuard(func() { w.h.ServeHTTP(c, r) }); pan != "" {
		return doc, 0, fmt.Errorf("the handler crashes: %s", pan)
	}
	io.Copy(io.Discard, r.Body)
	if err := json.Unmarshal(c.b.Bytes(), &doc); err != nil {
		return doc, c.code, fmt.Errorf("%d %.200q", c.code, c.b.Bytes())
	}
	if c.code/100 != 2 {
		return doc, c.code, fmt.Errorf("%d %.200s", c.code, c.b.Bytes())
	}
	return doc, c.code, nil
}

// ask sends a request over the network; lost tells that no answer came.
func (w *agreeWorld) ask(o Op, ik string) (doc wire, lost bool, err error) {
	n := o.Net
	if n == nil {
		n = &Net{}
	}
	if n.Delay > 0 {
		w.res.Faults["request delayed"]++
		simrt.Sleep(n.Delay)
	}
	if n.DropReq {
		w.res.Faults["request lost"]++
		return doc, true, nil
	}
	if n.Dup > 0 {
		w.res.Faults["request duplicated"]++
		w.dup++
		simrt.Spawn("copy", false, func() {
			defer func() { w.dup-- }()
			simrt.Sleep(n.DupDelay)
			w.serve(o, ik)
		})
	}
	doc, _, err = w.serve(o, ik)
	if n.DropResp {
		w.res.Faults["response lost"]++
		return wire{}, true, nil
	}
	return doc, false, err
}

// look is the current view of a machine.
func (w *agreeWorld) look(dev int) *server.Machine {
	doc, _, err := w.serve(Op{K: "get", Dev: dev}, w.refs[dev].IKHex())
	if err != nil {
		return nil
	}
	return doc.Machine
}

func answerOf(k string, d wire) string {
	var p *string
	switch k {
	case "epin":
		p = d.Encrypted
	case "edata":
		p = d.Encrypted
	case "mac":
		p = d.Generated
	case "dpin":
		p = d.Decrypted
	case "ddata":
		p = d.Data
	}
	if p == nil {
		return ""
	}
	return *p
}

// client uses the service and reports to the operators.
func (w *agreeWorld) client(ti int, t Task) {
	defer func() { w.clients-- }()
	for oi, o := range t.Ops {
		if o.Think > 0 {
			simrt.Sleep(o.Think)
		}
		if simrt.Aborting() {
			return
		}
		if o.K == "nop" || o.Dev >= len(w.refs) || w.refs[o.Dev] == nil {
			continue
		}
		w.res.Ops++
		switch o.K {
		case "next":
			_, lost, err := w.ask(o, w.refs[o.Dev].IKHex())
			w.note("client %d.%d advances %d: lost=%v %v", ti, oi, o.Dev, lost, err)
		case "seal": // the operator encrypts, the service decrypts
			w.seal(ti, oi, o)
		case "step":
			w.walk(ti, oi, o)
		case "march":
			for i := 0; i < o.N&15; i++ {
				w.ask(Op{K: "next", Dev: o.Dev}, w.refs[o.Dev].IKHex())
				w.walk(ti, oi, o)
			}
		default:
			a := w.look(o.Dev)
			doc, lost, err := w.ask(o, w.refs[o.Dev].IKHex())
			b := w.look(o.Dev)
			ans := answerOf(o.K, doc)
			w.note("client %d.%d %s on %d: lost=%v %v", ti, oi, o.K, o.Dev, lost, err)
			if lost || a == nil || b == nil || a.CurrentKSN != b.CurrentKSN {
				w.res.Probes["not attributable"]++
				continue
			}
			w.id++
			if err != nil {
				ans = "error: " + err.Error()
			}
			w.post(&amsg{id: w.id, dev: o.Dev, ksn: b.CurrentKSN, ik: b.InitialKey, tk: b.TransactionKey, op: o, answer: ans})
		}
	}
}

func (w *agreeWorld) post(m *amsg) {
	n := m.op.Net
	if n == nil {
		n = &Net{}
	}
	m.at = simrt.Now() + n.StallFor
	if n.StallFor > 0 {
		w.res.Faults["report delayed"]++
	}
	if n.RDie {
		w.res.Faults["report lost"]++
	} else {
		w.box = append(w.box, m)
	}
	for i := 0; i < n.Retry; i++ {
		w.res.Faults["report duplicated"]++
		c := *m
		c.at = simrt.Now() + n.Pace*int64(i+1)
		w.box = append(w.box, &c)
	}
}

func (w *agreeWorld) take() *amsg {
	best := -1
	for i, m := range w.box {
		if m.at <= simrt.Now() && (best < 0 || m.at < w.box[best].at) {
			best = i
		}
	}
	if best < 0 {
		return nil
	}
	m := w.box[best]
	w.box = append(w.box[:best:best], w.box[best+1:]...)
	return m
}

// tool runs one invocation; an operator whose output is lost does it again.
func (w *agreeWorld) run(c cliCall, style int, fault string) (v string, ok bool, what string) {
	line := cliLine(c.K, c.opts(), style)
	what = "dukptcli " + strings.Join(line, " ")
	if fault != "" {
		w.res.Faults["output: "+fault]++
		w.tool.invoke(line, fault, 3)
	}
	o := w.tool.invoke(line, "", 0)
	if simrt.Aborting() {
		return "", false, what
	}
	w.note("%s -> %v", what, o)
	v, ok = resultLine(o.out)
	if !ok || o.code != 0 || o.pan != "" {
		return o.String(), false, what
	}
	return v, true, what
}

// keysFor walks the derivation steps with the tool.
func (w *agreeWorld) keysFor(d Dev, ksn string, style int) (ik, tk string, ok bool, why string) {
	c := w.call(d, "ik", style)
	c.BDK, c.KSN = d.BDK, ksn
	ik, good, what := w.run(c, style, "")
	if !good {
		return "", "", false, fmt.Sprintf("%s: %s", what, ik)
	}
	c = w.call(d, "tk", style)
	c.IK, c.KSN = ik, ksn
	tk, good, what = w.run(c, style>>1, "")
	if !good {
		return "", "", false, fmt.Sprintf("%s: %s", what, tk)
	}
	return ik, tk, true, ""
}

func (w *agreeWorld) call(d Dev, k string, style int) cliCall {
	c := cliCall{K: k, Alg: d.Alg}
	if d.Alg == "aes" {
		c.KType = strings.ToLower(d.Type)
		if d.Type == "AES128" && style&8 != 0 {
			c.KType = "" // the documented default
		}
	} else if style&16 != 0 {
		c.Alg = "" // the documented default
	}
	return c
}

// args completes an invocation with the arguments of an operation.
func (w *agreeWorld) args(c *cliCall, d Dev, o Op, tk, ksn string) {
	c.TK, c.KSN, c.Pin, c.Pan, c.Data, c.Act, c.IV = tk, ksn, o.Pin, o.Pan, o.Data, o.Act, o.IV
	bl := 8
	if d.Alg == "aes" {
		bl = 16
		c.Mac = o.Mac
		if o.Mac == "cmac" && o.N&32 != 0 {
			c.Mac = "" // the documented default
		}
	} else {
		c.Fmt = o.Fmt
		if c.Fmt == "" {
			c.Fmt = "ISO-0"
		}
		if o.N&64 != 0 {
			c.KSN = "" // TDES operations do not need it
		}
	}
	if c.Act == "request" && o.N&128 != 0 {
		c.Act = ""
	}
	if c.IV == "" {
		c.IV = strings.Repeat("00", bl)
	}
}

func unhex(s string) []byte { b, _ := hex.DecodeString(s); return b }

// padded is what decryption gives back.
func padded(s string, bl int) string {
	for len(s)%bl != 0 {
		s += "\x00"
	}
	return s
}

// operator repeats what the service did with the tool and the library.
func (w *agreeWorld) operator(wi int, fault string) {
	for {
		m := w.take()
		if m == nil {
			at := simrt.Now() + 10*sec
			for _, x := range w.box {
				if x.at < at {
					at = x.at
				}
			}
			if w.clients == 0 && len(w.box) == 0 {
				return
			}
			n := len(w.box)
			simrt.BlockUntil(readyFn(func() bool { return w.clients == 0 && len(w.box) == 0 || len(w.box) != n }), at, "mailbox")
			if simrt.Aborting() {
				return
			}
			continue
		}
		w.verify(m, fault)
		if simrt.Aborting() {
			return
		}
	}
}

func (w *agreeWorld) verify(m *amsg, fault string) {
	d, o := w.s.Devs[m.dev], m.op
	name := fmt.Sprintf("%s machine (%s, base key %s) at key serial number %s, %s", d.Alg, d.Type, d.BDK, m.ksn, opText(o))
	w.note("report %d: %s -> %s", m.id, name, m.answer)
	ik, tk, ok, why := w.keysFor(d, m.ksn, o.N)
	if simrt.Aborting() {
		return
	}
	if !ok {
		w.bad("tool-keys", "%s: the tool does not derive the keys: %s", name, why)
		return
	}
	if !strings.EqualFold(ik, m.ik) {
		w.bad("initial-key", "%s: the tool derives the initial key %s, the service holds %s", name, ik, m.ik)
		return
	}
	if !strings.EqualFold(tk, m.tk) {
		w.bad("transaction-key", "%s: the tool derives the transaction key %s, the service shows %s", name, tk, m.tk)
		return
	}
	lib := libSide{A: d.Alg == "aes", T: d.Type}
	var lk []byte
	var lerr error
	if pan := libGuard(func() { lk, lerr = lib.keys(unhex(d.BDK), unhex(m.ksn)) }); pan != "" || lerr != nil {
		w.bad("library-keys", "%s: the library does not derive the keys: %v %s", name, lerr, pan)
		return
	}
	if !strings.EqualFold(hx(lk), tk) {
		w.bad("library-keys", "%s: the library derives the transaction key %x, the tool %s", name, lk, tk)
		return
	}
	k := map[string]string{"epin": "ep", "dpin": "dp", "mac": "gm", "edata": "en", "ddata": "de"}[o.K]
	rd := w.refs[m.dev]
	c := w.call(d, k, o.N>>2)
	w.args(&c, d, o, tk, m.ksn)
	got, good, what := w.run(c, o.N>>3, fault)
	if simrt.Aborting() {
		return
	}
	if rerr, isErr := strings.CutPrefix(m.answer, "error: "); isErr {
		if good {
			w.bad("service-refuses", "%s: the service refuses it (%s), the tool carries it out: %s -> %q", name, rerr, what, got)
		}
		return
	}
	if !good {
		w.bad("tool-refuses", "%s: the service answers %.300q, the tool refuses it: %s -> %s", name, m.answer, what, got)
		return
	}
	// the library on the same arguments
	iv := unhex(c.IV)
	act := orDef(o.Act, "request")
	var lb []byte
	var ls string
	pan := libGuard(func() {
		switch o.K {
		case "epin":
			lb, lerr = lib.epin(lk, unhex(m.ksn), o.Pin, o.Pan, orDef(o.Fmt, "ISO-0"))
		case "dpin":
			ls, lerr = lib.dpin(lk, unhex(m.ksn), unhex(o.Data), o.Pan, orDef(o.Fmt, "ISO-0"))
		case "mac":
			lb, lerr = lib.mac(lk, unhex(m.ksn), o.Data, act, o.Mac)
		case "edata":
			lb, lerr = lib.enc(lk, unhex(m.ksn), iv, o.Data, act)
		case "ddata":
			ls, lerr = lib.dec(lk, unhex(m.ksn), iv, unhex(o.Data), act)
		}
	})
	if simrt.Aborting() {
		return
	}
	if pan != "" || lerr != nil {
		w.bad("library-refuses", "%s: the service answers %.300q, the library fails: %v %s", name, m.answer, lerr, pan)
		return
	}
	switch o.K {
	case "mac":
		if !strings.EqualFold(got, m.answer) || !strings.EqualFold(got, hx(lb)) {
			w.bad("mac", "%s: the service answers %s, the tool %s (%s), the library %x", name, m.answer, got, what, lb)
		}
	case "edata":
		if !strings.EqualFold(got, m.answer) || !strings.EqualFold(got, hx(lb)) {
			w.bad("ciphertext", "%s: the service answers %s, the tool %s (%s), the library %x", name, m.answer, got, what, lb)
			return
		}
		// the tool decrypts what the service encrypted
		c := w.call(d, "de", o.N>>4)
		w.args(&c, d, o, tk, m.ksn)
		c.Data = m.answer
		p, good, what := w.run(c, o.N>>5, "")
		if simrt.Aborting() {
			return
		}
		if !good || p != padded(o.Data, rd.Block()) {
			w.bad("decrypt", "%s: the tool does not recover the data the service encrypted: %s -> %q", name, what, p)
		}
	case "ddata":
		if trip(got) != m.answer || got != ls {
			w.bad("plaintext", "%s: the service answers %q, the tool %q (%s), the library %q", name, m.answer, got, what, ls)
		}
	case "epin":
		if rd.AES || ref.RandomFill(orDef(o.Fmt, "ISO-0")) {
			if len(got) != len(m.answer) || len(got) != 2*len(lb) {
				w.bad("pin-ciphertext", "%s: the service answers %s, the tool %s (%s), the library %x", name, m.answer, got, what, lb)
				return
			}
		} else if !strings.EqualFold(got, m.answer) || !strings.EqualFold(got, hx(lb)) {
			w.bad("pin-ciphertext", "%s: the service answers %s, the tool %s (%s), the library %x", name, m.answer, got, what, lb)
			return
		}
		if knownLongPin(rd, o.Pin, o.Fmt) {
			w.res.Probes["long pin not decrypted (known finding of C11)"]++
			return
		}
		want := o.Pin
		if !rd.AES {
			want = ref.Carried(orDef(o.Fmt, "ISO-0"), o.Pin)
		}
		for i, ct := range []string{m.answer, hx(lb)} {
			c := w.call(d, "dp", o.N>>4)
			w.args(&c, d, o, tk, m.ksn)
			c.Data = ct
			p, good, what := w.run(c, o.N>>5, "")
			if simrt.Aborting() {
				return
			}
			if !good || p != want {
				w.bad("pin", "%s: the tool does not recover the PIN the %s encrypted: %s -> %q", name, []string{"service", "library"}[i], what, p)
				return
			}
		}
		// the library reads what the tool encrypted
		var p string
		var err error
		if pan := libGuard(func() { p, err = lib.dpin(lk, unhex(m.ksn), unhex(got), o.Pan, orDef(o.Fmt, "ISO-0")) }); pan != "" || err != nil || p != want {
			if simrt.Aborting() {
				return
			}
			w.bad("pin", "%s: the library does not recover the PIN the tool encrypted (%s -> %s): %q %v %s", name, what, got, p, err, pan)
		}
	case "dpin":
		if got != m.answer || got != ls {
			w.bad("pin", "%s: the service answers %q, the tool %q (%s), the library %q", name, m.answer, got, what, ls)
		}
	}
}

func opText(o Op) string {
	switch o.K {
	case "epin":
		return fmt.Sprintf("encrypting PIN %q PAN %q format %q", o.Pin, o.Pan, o.Fmt)
	case "dpin":
		return fmt.Sprintf("decrypting PIN %s PAN %q format %q", o.Data, o.Pan, o.Fmt)
	case "mac":
		return fmt.Sprintf("%s of %q action %q", o.Mac, o.Data, o.Act)
	case "edata":
		return fmt.Sprintf("encrypting %q action %q IV %q", o.Data, o.Act, o.IV)
	}
	return fmt.Sprintf("decrypting %s action %q IV %q", o.Data, o.Act, o.IV)
}

// seal has the tool encrypt and the service decrypt.
func (w *agreeWorld) seal(ti, oi int, o Op) {
	d, rd := w.s.Devs[o.Dev], w.refs[o.Dev]
	o.K = pickK(o)
	a := w.look(o.Dev)
	if a == nil {
		w.bad("lookup", "the service does not show the machine %d", o.Dev)
		return
	}
	name := fmt.Sprintf("%s machine (%s, base key %s) at key serial number %s, %s", d.Alg, d.Type, d.BDK, a.CurrentKSN, opText(o))
	_, tk, ok, why := w.keysFor(d, a.CurrentKSN, o.N)
	if simrt.Aborting() {
		return
	}
	if !ok {
		w.bad("tool-keys", "%s: the tool does not derive the keys: %s", name, why)
		return
	}
	k, back := "en", "ddata"
	if o.K == "epin" {
		k, back = "ep", "dpin"
	}
	c := w.call(d, k, o.N>>2)
	w.args(&c, d, o, tk, a.CurrentKSN)
	ct, good, what := w.run(c, o.N>>3, "")
	if simrt.Aborting() {
		return
	}
	if !good {
		w.bad("tool-refuses", "%s: the tool refuses it: %s -> %s", name, what, ct)
		return
	}
	x := o
	x.K, x.Data = back, ct
	doc, lost, err := w.ask(x, rd.IKHex())
	b := w.look(o.Dev)
	w.note("client %d.%d seal %s: lost=%v %v", ti, oi, name, lost, err)
	if lost || b == nil || a.CurrentKSN != b.CurrentKSN {
		w.res.Probes["not attributable"]++
		return
	}
	want := trip(padded(o.Data, rd.Block()))
	if k == "ep" {
		want = o.Pin
		if !rd.AES {
			want = ref.Carried(orDef(o.Fmt, "ISO-0"), o.Pin)
		}
		if knownLongPin(rd, o.Pin, o.Fmt) {
			return
		}
	}
	if got := answerOf(back, doc); err != nil || got != want {
		w.bad("service-decrypt", "%s: the service does not recover what the tool encrypted (%s -> %s): %q %v", name, what, ct, got, err)
	}
}

func pickK(o Op) string {
	if o.Pin != "" {
		return "epin"
	}
	return "edata"
}

// walk compares the keys at the machine's present step.
func (w *agreeWorld) walk(ti, oi int, o Op) {
	d := w.s.Devs[o.Dev]
	a := w.look(o.Dev)
	if a == nil {
		w.bad("lookup", "the service does not show the machine %d", o.Dev)
		return
	}
	ik, tk, ok, why := w.keysFor(d, a.CurrentKSN, o.N)
	if simrt.Aborting() {
		return
	}
	if !ok {
		w.bad("tool-keys", "%s machine %s: the tool does not derive the keys at %s: %s", d.Alg, d.BDK, a.CurrentKSN, why)
		return
	}
	if !strings.EqualFold(ik, a.InitialKey) || !strings.EqualFold(tk, a.TransactionKey) {
		w.bad("transaction-key", "%s machine %s at %s: the tool derives %s and %s, the service shows %s and %s", d.Alg, d.BDK, a.CurrentKSN, ik, tk, a.InitialKey, a.TransactionKey)
	}
}

// setup starts the service and registers the machines.
func (w *agreeWorld) setup() bool {
	s := w.s
	svc := server.NewService(server.NewRepositoryInMemory(log.NewNopLogger()))
	w.h = server.MakeHTTPHandler(svc)
	for i, d := range s.Devs {
		rd, err := newRef(d)
		if err != nil {
			w.refs = append(w.refs, nil)
			continue
		}
		w.refs = append(w.refs, rd)
		if _, _, err := w.serve(Op{K: "create", Dev: i}, ""); err != nil {
			dup := false
			for _, r := range w.refs[:i] {
				dup = dup || r != nil && r.IKHex() == rd.IKHex()
			}
			if !dup {
				w.bad("register", "the service refuses the machine %+v: %v", d, err)
			}
			w.refs[i] = nil
		}
	}
	return true
}

func runAgree(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := &agreeWorld{s: s, res: res, tool: &cliTool{res: res}}
	simrt.Setup = w.setup
	var defs []simrt.TaskDef
	for ti, t := range s.Tasks {
		w.clients++
		defs = append(defs, simrt.TaskDef{Name: t.Name, Fn: func() { w.client(ti, t) }})
	}
	no := int(s.P["operators"])
	if no < 1 {
		no = 1
	}
	for i := 0; i < no; i++ {
		fault := ""
		if i == 0 && s.P["badout"] > 0 {
			fault = []string{"", "closed", "full", "torn", "pipe"}[s.P["badout"]%5]
		}
		defs = append(defs, simrt.TaskDef{Name: fmt.Sprintf("operator%d", i), Fn: func() { w.operator(i, fault) }})
	}
	runCmd(s, res, defs)
	res.Trace = append(res.Trace, w.hist...)
	h := fnv.New64a()
	for _, l := range w.hist {
		h.Write([]byte(l))
	}
	res.HistHash = h.Sum64()
}

func init() {
	Register("agree", runAgree)
	gens["C19"] = genAgree
}

func genAgree(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	s := &Spec{Prop: prop, Kind: "agree", Seed: seed, P: map[string]int64{}}
	nd := r.In(1, 2)
	for i := 0; i < nd; i++ {
		d := r.dev("", pickOf(r, "", "", "", "end"))
		if d.Alg == "des" {
			d.Type = ""
		}
		s.Devs = append(s.Devs, d)
	}
	s.P["operators"] = int64(r.In(1, 2))
	if r.P(1, 4) {
		s.P["badout"] = int64(r.In(1, 4))
	}
	for t := r.In(1, 3); t > 0; t-- {
		var ops []Op
		for n := r.In(1, 4); len(ops) < n; {
			dev := r.N(nd)
			d := s.Devs[dev]
			var o Op
			switch r.N(11) {
			case 10:
				o = Op{K: "march", Dev: dev}
			case 0, 1, 2:
				o = Op{K: "next", Dev: dev}
			case 3:
				o = Op{K: "step", Dev: dev}
			case 4, 5:
				o = r.crypto(pickOf(r, "epin", "edata"), dev, d)
				o.K = "seal"
			default:
				o = r.crypto(pickOf(r, "epin", "mac", "mac", "edata", "ddata"), dev, d)
			}
			o.Data = argSafe(o.Data)
			o.N = r.N(1 << 12)
			if r.P(1, 3) {
				o.Net = r.agreeNet()
			}
			if r.P(1, 5) {
				o.Think = int64(r.In(0, 3000)) * 1000
			}
			ops = append(ops, o)
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	s.Cfg = r.cfg(seed, 6000)
	return s
}

// agreeNet is the fate of a request and of the report about it.
func (r *RNG) agreeNet() *Net {
	n := &Net{}
	if r.P(1, 3) {
		n.Delay = int64(r.In(0, 4000)) * 1000
	}
	switch r.N(7) {
	case 0:
		n.DropReq = true
	case 1:
		n.DropResp = true
	case 2:
		n.Dup = 1
		n.DupDelay = int64(r.In(0, 3000)) * 1000
	case 3:
		n.RDie = true
	case 4:
		n.Retry = r.In(1, 2)
		n.Pace = int64(r.In(0, 3000)) * 1000
	case 5:
		n.StallFor = int64(r.In(0, 6000)) * 1000
	}
	return n
}
