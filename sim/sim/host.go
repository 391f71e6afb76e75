package sim

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"
	"github.com/moov-io/dukpt/pkg/server"

	"verif/ref"
	"verif/simrt"
)

// The "host" scenario: terminals (the reference model with its registers, or
// the library) exchange messages with host workers (the library, or the
// reference model) over a bad network. Hosts know the base key only.

type hmsg struct {
	dev  int
	ksn  []byte
	pct  []byte // encrypted PIN block
	iv   []byte
	ct   []byte // encrypted data
	mac  []byte
	pan  string
	fmt  string
	kind string // cmac, hmac
	// harness only
	id      int
	pin     string
	plain   string
	altered bool
	at      int64
	crash   int
}

func (m *hmsg) fields() []*[]byte { return []*[]byte{&m.ksn, &m.pct, &m.iv, &m.ct, &m.mac} }

func (m *hmsg) clone() *hmsg {
	c := *m
	for _, f := range c.fields() {
		*f = bytes.Clone(*f)
	}
	return &c
}

func (m *hmsg) body() string {
	return fmt.Sprintf("%x|%s|%s|%x|%x|%x", m.ksn, m.pan, m.fmt, m.pct, m.iv, m.ct)
}

type replyMsg struct {
	id      int
	ct, mac []byte
	plain   string
	altered bool
	at      int64
}

type hostDev struct {
	d     *ref.Dev
	spec  Dev
	lib   bool // the terminal is the library, the host the reference model
	short bool // leading FF bytes of the key serial number are left out
	dterm *ref.DesTerminal
	aterm *ref.AesTerminal
	lksn  []byte // library terminal: durable key serial number
	dead  bool
	inbox []*replyMsg
	iv    []byte
}

type hostWorld struct {
	s     *Spec
	res   *RunResult
	devs  []*hostDev
	queue []*hmsg // at the host
	hist  []string
	done  bool
	nmsg  int
	got   map[int]int // messages answered
	quiet bool        // no more faults
}

func (w *hostWorld) note(format string, a ...any) { w.hist = append(w.hist, fmt.Sprintf(format, a...)) }
func (w *hostWorld) bad(oracle, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	w.note("VIOLATION %s: %s", oracle, m)
	w.res.add("C14", oracle, m)
}

// protocol is the crypto of one side.
type protocol interface {
	keys(bdk, ksn []byte) (tk []byte, err error)
	mac(tk, ksn []byte, data, act, kind string) ([]byte, error)
	epin(tk, ksn []byte, pin, pan, format string) ([]byte, error)
	dpin(tk, ksn, ct []byte, pan, format string) (string, error)
	enc(tk, ksn, iv []byte, data, act string) ([]byte, error)
	dec(tk, ksn, iv, ct []byte, act string) (string, error)
}

// refSide is the standard.
type refSide struct{ A bool }

func (r refSide) keys(bdk, ksn []byte) ([]byte, error) {
	if r.A {
		return ref.AesTK(ref.AesIK(bdk, ksn), ksn), nil
	}
	return ref.DesTK(ref.DesIK(bdk, ksn), ksn), nil
}
func (r refSide) mac(tk, ksn []byte, data, act, kind string) ([]byte, error) {
	if !r.A {
		return ref.DesMAC(tk, []byte(data), act == "response"), nil
	}
	if kind == "hmac" {
		return ref.AesHMAC(tk, ksn, []byte(data), act == "response"), nil
	}
	return ref.AesCMAC(tk, ksn, []byte(data), act == "response"), nil
}
func (r refSide) epin(tk, ksn []byte, pin, pan, format string) ([]byte, error) {
	if r.A {
		return ref.AesEncryptPin(tk, ksn, pin, pan, []byte("\x13\x57\x9b\xdf\x02\x46\x8a\xce"))
	}
	return ref.DesEncryptPin(tk, pin, pan, format)
}
func (r refSide) dpin(tk, ksn, ct []byte, pan, format string) (string, error) {
	if r.A {
		return ref.AesDecryptPin(tk, ksn, ct, pan)
	}
	return ref.DesDecryptPin(tk, ct, pan, format)
}
func (r refSide) enc(tk, ksn, iv []byte, data, act string) ([]byte, error) {
	if r.A {
		return ref.AesEncrypt(tk, ksn, iv, []byte(data), act == "response"), nil
	}
	return ref.DesEncrypt(tk, iv, []byte(data), act == "response"), nil
}
func (r refSide) dec(tk, ksn, iv, ct []byte, act string) (string, error) {
	if r.A {
		return string(ref.AesDecrypt(tk, ksn, iv, ct, act == "response")), nil
	}
	return string(ref.DesDecrypt(tk, iv, ct, act == "response")), nil
}

// libSide is the library.
type libSide struct {
	A bool
	T string // AES128...
}

func (l libSide) keys(bdk, ksn []byte) ([]byte, error) {
	if l.A {
		ik, err := aes.DerivationOfInitialKey(bdk, ksn)
		if err != nil {
			return nil, err
		}
		return aes.DeriveCurrentTransactionKey(ik, ksn)
	}
	ik, err := des.DerivationOfInitialKey(bdk, ksn)
	if err != nil {
		return nil, err
	}
	return des.DeriveCurrentTransactionKey(ik, ksn)
}
func (l libSide) mac(tk, ksn []byte, data, act, kind string) ([]byte, error) {
	if !l.A {
		return des.GenerateMac(tk, data, act)
	}
	if kind == "hmac" {
		return aes.GenerateHMAC(tk, ksn, data, hmacType(l.T), act)
	}
	return aes.GenerateCMAC(tk, ksn, data, l.T, act)
}
func (l libSide) epin(tk, ksn []byte, pin, pan, format string) ([]byte, error) {
	if l.A {
		return aes.EncryptPin(tk, ksn, pin, pan, l.T)
	}
	return des.EncryptPin(tk, pin, pan, format)
}
func (l libSide) dpin(tk, ksn, ct []byte, pan, format string) (string, error) {
	if l.A {
		return aes.DecryptPin(tk, ksn, ct, pan, l.T)
	}
	return des.DecryptPin(tk, ct, pan, format)
}
func (l libSide) enc(tk, ksn, iv []byte, data, act string) ([]byte, error) {
	if l.A {
		return aes.EncryptData(tk, ksn, iv, data, l.T, act)
	}
	return des.EncryptData(tk, iv, data, act)
}
func (l libSide) dec(tk, ksn, iv, ct []byte, act string) (string, error) {
	if l.A {
		return aes.DecryptData(tk, ksn, ct, iv, l.T, act)
	}
	return des.DecryptData(tk, ct, iv, act)
}

// wrapSide is the library through the textual operations of the server package.
type wrapSide struct {
	A bool
	T string
}

func (l wrapSide) base() server.UnifiedParams {
	if l.A {
		return server.UnifiedParams{Algorithm: pkg.AlgorithmAes, AlgorithmKey: l.T}
	}
	return server.UnifiedParams{Algorithm: pkg.AlgorithmDes}
}
func unhexTo(s string, err error) ([]byte, error) {
	if err != nil {
		return nil, err
	}
	return hex.DecodeString(s)
}
func hx(b []byte) string { return hex.EncodeToString(b) }
func (l wrapSide) keys(bdk, ksn []byte) ([]byte, error) {
	p := l.base()
	p.BKD, p.KSN = hx(bdk), hx(ksn)
	ik, err := server.InitialKey(p)
	if err != nil {
		return nil, err
	}
	p.IK = ik
	return unhexTo(server.TransactionKey(p))
}
func (l wrapSide) mac(tk, ksn []byte, data, act, kind string) ([]byte, error) {
	p := l.base()
	p.TK, p.KSN, p.Plaintext, p.Action, p.MacType = hx(tk), hx(ksn), data, act, kind
	if l.A && kind == "hmac" {
		p.AlgorithmKey = hmacType(l.T)
	}
	return unhexTo(server.GenerateMac(p))
}
func (l wrapSide) epin(tk, ksn []byte, pin, pan, format string) ([]byte, error) {
	p := l.base()
	p.TK, p.KSN, p.PIN, p.PAN, p.Format = hx(tk), hx(ksn), pin, pan, format
	return unhexTo(server.EncryptPin(p))
}
func (l wrapSide) dpin(tk, ksn, ct []byte, pan, format string) (string, error) {
	p := l.base()
	p.TK, p.KSN, p.PIN, p.PAN, p.Format = hx(tk), hx(ksn), hx(ct), pan, format
	return server.DecryptPin(p)
}
func (l wrapSide) enc(tk, ksn, iv []byte, data, act string) ([]byte, error) {
	p := l.base()
	p.TK, p.KSN, p.IV, p.Plaintext, p.Action = hx(tk), hx(ksn), hx(iv), data, act
	return unhexTo(server.EncryptData(p))
}
func (l wrapSide) dec(tk, ksn, iv, ct []byte, act string) (string, error) {
	p := l.base()
	p.TK, p.KSN, p.IV, p.Ciphertext, p.Action = hx(tk), hx(ksn), hx(iv), hx(ct), act
	return server.DecryptData(p)
}

func (h *hostDev) lib2(n int) protocol {
	if n%3 == 2 {
		return wrapSide{h.d.AES, h.spec.Type}
	}
	return libSide{h.d.AES, h.spec.Type}
}

func (h *hostDev) fmtFor(o Op) string {
	if o.Fmt == "" {
		return "ISO-0"
	}
	return o.Fmt
}

// current is the terminal's key of this transaction; ok is false when the
// terminal is used up.
func (w *hostWorld) current(h *hostDev) (ksn, tk []byte, ok bool) {
	if h.lib {
		if h.dead {
			return nil, nil, false
		}
		p := h.lib2(0)
		var err error
		pan := libGuard(func() { tk, err = p.keys(h.d.BDK, h.lksn) })
		if pan != "" || err != nil {
			w.bad("terminal-key", "the library cannot derive the key of %x: %v %s", h.lksn, err, pan)
			return nil, nil, false
		}
		return bytes.Clone(h.lksn), tk, true
	}
	if h.d.AES {
		return h.aterm.Current()
	}
	return h.dterm.Current()
}

func (w *hostWorld) advance(h *hostDev) {
	if !h.lib {
		if h.d.AES {
			h.aterm.Advance()
		} else {
			h.dterm.Advance()
		}
		return
	}
	if h.dead {
		return
	}
	var n []byte
	var err error
	pan := libGuard(func() {
		if h.d.AES {
			n, err = pkg.GenerateNextAesKsn(h.lksn)
		} else {
			n, err = pkg.GenerateNextDesKsn(h.lksn)
		}
	})
	if simrt.Aborting() {
		return
	}
	tc, _ := h.d.ParseTC(hx(h.lksn))
	want, more := h.d.Next(tc)
	if pan != "" || (err != nil) == more || more && hx(n) != h.d.KSNAt(want) {
		w.bad("terminal-next", "after %x the library's terminal moves to %x (%v %s)", h.lksn, n, err, pan)
		h.dead = true
		return
	}
	if !more {
		h.dead = true
		return
	}
	h.lksn = n
}

func flipBits(fs []*[]byte, pos []int) bool {
	total := 0
	for _, f := range fs {
		total += len(*f) * 8
	}
	if total == 0 {
		return false
	}
	hit := map[int]bool{}
	for _, p := range pos {
		p = (p%total + total) % total
		hit[p] = !hit[p]
		for _, f := range fs {
			if p < len(*f)*8 {
				(*f)[p/8] ^= 1 << uint(p%8)
				break
			}
			p -= len(*f) * 8
		}
	}
	for _, v := range hit {
		if v {
			return true
		}
	}
	return false
}

// send puts a message (and its copies) on the network.
func (w *hostWorld) send(m *hmsg, n *Net) {
	if n == nil {
		n = &Net{}
	}
	copies := 1
	if n.DropReq {
		w.res.Faults["message lost"]++
		copies = 0
	}
	if n.Dup > 0 {
		w.res.Faults["message duplicated"] += n.Dup
	}
	for i := 0; i < copies+n.Dup; i++ {
		c := m.clone()
		if i == 0 && copies == 1 {
			c.at = simrt.Now() + n.Delay
			if n.Delay > 0 {
				w.res.Faults["message delayed"]++
			}
			if len(n.Flip) > 0 && !n.RDie {
				c.altered = flipBits(c.fields(), n.Flip)
				if c.altered {
					w.res.Faults["message altered"]++
				}
			}
		} else {
			c.at = simrt.Now() + n.DupDelay*int64(i+1)
		}
		w.queue = append(w.queue, c)
	}
}

func (w *hostWorld) take() *hmsg {
	best := -1
	for i, m := range w.queue {
		if m.at <= simrt.Now() && (best < 0 || m.at < w.queue[best].at) {
			best = i
		}
	}
	if best < 0 {
		return nil
	}
	m := w.queue[best]
	w.queue = append(w.queue[:best:best], w.queue[best+1:]...)
	return m
}

func (w *hostWorld) earliest() int64 {
	e := int64(-1)
	for _, m := range w.queue {
		if e < 0 || m.at < e {
			e = m.at
		}
	}
	return e
}

// worker is one thread of the host.
func (w *hostWorld) worker(wi int) {
	for {
		m := w.take()
		if m == nil {
			at := w.earliest()
			if at < 0 {
				at = simrt.Now() + 10*sec
			}
			if w.done && len(w.queue) == 0 {
				return
			}
			n := len(w.queue)
			simrt.BlockUntil(readyFn(func() bool { return w.done && len(w.queue) == 0 || len(w.queue) != n }), at, "queue")
			continue
		}
		h := w.devs[m.dev]
		var side protocol = refSide{h.d.AES}
		if !h.lib {
			side = h.lib2(wi + m.id)
		}
		stage := 0
		crashed := func() bool {
			stage++
			if m.crash > 0 && stage == m.crash && !w.quiet {
				w.res.Faults["host crash"]++
				w.note("host worker %d crashes at stage %d of message %d", wi, stage, m.id)
				simrt.Sleep(50_000_000) // restart
				return true
			}
			return false
		}
		act := "request"
		var tk, mac, rct, rmac []byte
		var pin, plain string
		var err error
		body := m.body()
		call := func(f func()) bool {
			pan := libGuard(f)
			if simrt.Aborting() {
				return false
			}
			if pan != "" {
				err = fmt.Errorf("crash: %s", pan)
				if !m.altered {
					w.bad("host-crash", "host worker %d crashes on message %d of terminal %d (ksn %x): %s", wi, m.id, m.dev, m.ksn, pan)
				} else {
					w.res.add("C09", "host-crash", fmt.Sprintf("the library crashes on an altered message: %s", pan))
				}
			}
			return true
		}
		if !call(func() { tk, err = side.keys(h.d.BDK, m.ksn) }) {
			return
		}
		if crashed() {
			continue
		}
		if err == nil {
			if !call(func() { mac, err = side.mac(tk, m.ksn, body, act, m.kind) }) {
				return
			}
		}
		if crashed() {
			continue
		}
		if err != nil {
			if !m.altered {
				w.bad("host-refuses", "the host cannot process message %d of terminal %d (ksn %x, %s): %v", m.id, m.dev, m.ksn, h.name(), err)
			}
			w.note("host %d rejects message %d altered=%v: %v", wi, m.id, m.altered, err)
			continue
		}
		okMac := bytes.Equal(mac, m.mac)
		if m.altered {
			if okMac {
				w.bad("forgery", "message %d of terminal %d was altered in transit and still passes MAC verification (ksn %x)", m.id, m.dev, m.ksn)
			}
			w.note("host %d: altered message %d, mac ok %v", wi, m.id, okMac)
			continue
		}
		if !okMac {
			w.bad("mac", "the host computes MAC %x for message %d of terminal %d, which carries %x (ksn %x, %s, %s)", mac, m.id, m.dev, m.mac, m.ksn, m.kind, h.name())
			continue
		}
		if !call(func() { pin, err = side.dpin(tk, m.ksn, m.pct, m.pan, m.fmt) }) {
			return
		}
		want := m.pin
		if !h.d.AES {
			want = ref.Carried(m.fmt, m.pin)
		}
		if err != nil || pin != want {
			if err != nil && !h.lib && knownLongPin(h.d, m.pin, m.fmt) {
				w.res.known("C14", KnownLongPin)
			} else {
				w.bad("pin", "the host recovers PIN %q (%v) from message %d of terminal %d instead of %q (ksn %x, format %s, %s)", pin, err, m.id, m.dev, want, m.ksn, m.fmt, h.name())
				continue
			}
		}
		if crashed() {
			continue
		}
		if !call(func() { plain, err = side.dec(tk, m.ksn, m.iv, m.ct, act) }) {
			return
		}
		if err != nil || strings.TrimRight(plain, "\x00") != strings.TrimRight(m.plain, "\x00") {
			w.bad("data", "the host recovers data %q (%v) from message %d of terminal %d instead of %q (ksn %x, %s)", plain, err, m.id, m.dev, m.plain, m.ksn, h.name())
			continue
		}
		if crashed() {
			continue
		}
		// reply
		rp := fmt.Sprintf("approved %d", m.id)
		ok := call(func() {
			rct, err = side.enc(tk, m.ksn, m.iv, rp, "response")
			if err == nil {
				rmac, err = side.mac(tk, m.ksn, fmt.Sprintf("%x|%x", m.ksn, rct), "response", m.kind)
			}
		})
		if !ok {
			return
		}
		if err != nil {
			w.bad("reply", "the host cannot answer message %d: %v", m.id, err)
			continue
		}
		if crashed() {
			continue
		}
		w.note("host %d answers message %d", wi, m.id)
		w.got[m.id]++
		h.inbox = append(h.inbox, &replyMsg{id: m.id, ct: rct, mac: rmac, plain: rp})
	}
}

func (h *hostDev) name() string {
	s := "TDES"
	if h.d.AES {
		s = h.spec.Type
	}
	if h.lib {
		s += ", library as terminal"
	}
	return s
}

// transact is one transaction of a terminal.
func (w *hostWorld) transact(ti int, o Op, final bool) {
	h := w.devs[o.Dev]
	ksn, tk, ok := w.current(h)
	if !ok {
		return
	}
	var side protocol = refSide{h.d.AES}
	if h.lib {
		side = h.lib2(ti)
	}
	m := &hmsg{dev: o.Dev, ksn: ksn, pan: o.Pan, fmt: h.fmtFor(o), kind: o.Mac, pin: o.Pin, plain: o.Data, iv: []byte(o.IV)}
	if len(m.iv) != h.d.Block() {
		m.iv = make([]byte, h.d.Block())
	}
	if !final && o.Fault == "hostcrash" {
		m.crash = o.N
	}
	if h.short && !h.lib {
		m.ksn = bytes.Clone(ksn[2:]) // leading FF bytes are implied
	}
	var err error
	pan := libGuard(func() {
		if m.pct, err = side.epin(tk, m.ksn, m.pin, m.pan, m.fmt); err != nil {
			return
		}
		if m.ct, err = side.enc(tk, m.ksn, m.iv, m.plain, "request"); err != nil {
			return
		}
		m.mac, err = side.mac(tk, m.ksn, m.body(), "request", m.kind)
	})
	if simrt.Aborting() {
		return
	}
	if pan != "" || err != nil {
		w.bad("terminal", "the terminal cannot make its message (ksn %x, pin %q, pan %q, %s, %s): %v %s", m.ksn, m.pin, m.pan, m.fmt, h.name(), err, pan)
		w.advance(h)
		return
	}
	w.nmsg++
	m.id = w.nmsg
	w.res.Ops++
	// the terminal moves on durably before anything leaves it
	w.advance(h)
	w.note("terminal %d sends message %d: ksn %x %s %s pin %s", o.Dev, m.id, m.ksn, m.fmt, m.kind, m.pin)
	n := o.Net
	if final {
		n = nil
	}
	w.send(m, n)
	if o.Fault == "crash" && !final {
		// power is lost: the answer comes too late
		w.res.Faults["terminal crash"]++
		simrt.Sleep(100_000_000)
		h.inbox = nil
		return
	}
	deadline := simrt.Now() + 2*sec
	if final {
		deadline = simrt.Now() + 60*sec
	}
	for {
		var r *replyMsg
		got := simrt.BlockUntil(readyFn(func() bool { return len(h.inbox) > 0 }), deadline, "reply")
		if !got {
			w.note("terminal %d: no answer to %d", o.Dev, m.id)
			if final {
				w.bad("no-answer", "once faults have stopped, message %d of terminal %d stays unanswered (ksn %x)", m.id, o.Dev, ksn)
			}
			return
		}
		r = h.inbox[0]
		h.inbox = h.inbox[1:]
		if r.id != m.id {
			continue // an answer to an earlier transaction
		}
		if n != nil && n.DropResp {
			w.res.Faults["reply lost"]++
			return
		}
		if n != nil && n.RDie && len(n.Flip) > 0 {
			r.altered = flipBits([]*[]byte{&r.ct, &r.mac}, n.Flip)
			if r.altered {
				w.res.Faults["reply altered"]++
			}
		}
		var mac []byte
		var plain string
		pan := libGuard(func() {
			if mac, err = side.mac(tk, m.ksn, fmt.Sprintf("%x|%x", m.ksn, r.ct), "response", m.kind); err == nil {
				plain, err = side.dec(tk, m.ksn, m.iv, r.ct, "response")
			}
		})
		if simrt.Aborting() {
			return
		}
		good := pan == "" && err == nil && bytes.Equal(mac, r.mac)
		if r.altered {
			if good {
				w.bad("forgery", "a reply to message %d altered in transit passes MAC verification", m.id)
			}
			return
		}
		if !good || strings.TrimRight(plain, "\x00") != strings.TrimRight(r.plain, "\x00") {
			w.bad("reply", "terminal %d does not accept the reply to message %d: %v %s, MAC %x against %x, data %q (ksn %x, %s)", o.Dev, m.id, err, pan, mac, r.mac, plain, ksn, h.name())
		}
		w.note("terminal %d completes %d", o.Dev, m.id)
		w.res.Probes["transactions completed"]++
		return
	}
}

func runHost(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := &hostWorld{s: s, res: res, got: map[int]int{}}
	for i, d := range s.Devs {
		rd, err := newRef(d)
		if err != nil {
			panic(err)
		}
		h := &hostDev{d: rd, spec: d, lib: s.P["lib"]>>uint(i)&1 == 1}
		tc := rd.TC()
		if tc == 0 {
			tc, _ = rd.Next(0)
		}
		if h.lib {
			h.lksn, _ = hex.DecodeString(rd.KSNAt(tc))
		} else if rd.AES {
			h.aterm = ref.NewAesTerminal(rd.IK, rd.KSN)
			h.aterm.JumpTo(rd.IK, tc)
		} else {
			h.dterm = ref.NewDesTerminal(rd.IK, rd.KSN)
			h.dterm.JumpTo(rd.IK, tc)
			h.short = rd.KSN[0] == 0xff && rd.KSN[1] == 0xff && s.P["short"] == 1
		}
		w.devs = append(w.devs, h)
	}
	live := len(s.Tasks)
	var defs []simrt.TaskDef
	nw := int(s.P["workers"])
	if nw < 1 {
		nw = 1
	}
	for i := 0; i < nw; i++ {
		i := i
		defs = append(defs, simrt.TaskDef{Name: fmt.Sprintf("host%d", i), Fn: func() { w.worker(i) }})
	}
	for ti := range s.Tasks {
		ti := ti
		t := s.Tasks[ti]
		defs = append(defs, simrt.TaskDef{Name: t.Name, Fn: func() {
			for _, o := range t.Ops {
				if o.Think > 0 {
					simrt.Sleep(o.Think)
				}
				switch o.K {
				case "txn":
					w.transact(ti, o, false)
				case "skip": // transactions that never leave the terminal
					w.res.Faults["terminal skips a counter"]++
					w.advance(w.devs[o.Dev])
				}
			}
			live--
		}})
	}
	defs = append(defs, simrt.TaskDef{Name: "final", Fn: func() {
		simrt.Block(readyFn(func() bool { return live == 0 }), "terminals")
		w.quiet = true
		for i, h := range w.devs {
			h.inbox = nil
			w.transact(90+i, Op{Dev: i, Pin: "4711", Pan: "4111111111111111", Fmt: "ISO-0", Data: "final", Mac: "cmac"}, true)
		}
		w.done = true
	}})
	res.Out = simrt.Run(s.Cfg, defs)
	if res.Out.Crash != "" {
		w.bad("crash", "a goroutine crashed: %s", res.Out.Crash)
	}
	if res.Out.Deadlock != "" {
		w.bad("deadlock", "host and terminals wait for each other for ever: %s", res.Out.Deadlock)
	}
	if res.Out.StepLimit {
		w.bad("no-progress", "a call does not return within the step bound")
	}
	res.Trace = w.hist
	f := fnv.New64a()
	for _, h := range w.hist {
		f.Write([]byte(h))
	}
	res.HistHash = f.Sum64()
}

func init() {
	Register("host", runHost)
	gens["C14"] = genHost
}

func genHost(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop))
	s := &Spec{Prop: prop, Kind: "host", Seed: seed, P: map[string]int64{"workers": int64(r.In(1, 3))}}
	nd := r.In(1, 3)
	var lib int64
	for i := 0; i < nd; i++ {
		d := r.dev("", pickOf(r, "", "", "", "end", "skip", "carry", "block"))
		if r.P(1, 3) {
			lib |= 1 << uint(i)
		}
		s.Devs = append(s.Devs, d)
	}
	s.P["lib"] = lib
	if r.P(1, 3) {
		s.P["short"] = 1
	}
	total := 0
	for t := 0; t < nd; t++ {
		var ops []Op
		for n := r.In(1, 5); n > 0; n-- {
			if r.P(1, 8) {
				ops = append(ops, Op{K: "skip", Dev: t})
				continue
			}
			o := Op{K: "txn", Dev: t, Pin: r.pin(), Pan: r.pan(), Fmt: r.format(), Data: r.text(pickOf(r, r.In(1, 70), r.In(1, 70), r.In(1, 70), r.In(71, 700))), Mac: pickOf(r, "cmac", "hmac")}
			if r.P(2, 3) {
				bl := 8
				if s.Devs[t].Alg == "aes" {
					bl = 16
				}
				o.IV = r.hex(bl)[:bl]
			}
			n := &Net{}
			switch r.N(9) {
			case 0:
				n.DropReq = true
			case 1:
				n.Dup, n.DupDelay = r.In(1, 2), r.ms(0, 3000)
			case 2:
				n.Delay = r.ms(1, 5000)
			case 3:
				n.DropResp = true
			case 4, 5:
				n.Flip = []int{r.N(1 << 16)}
				for r.P(1, 3) {
					n.Flip = append(n.Flip, r.N(1<<16))
				}
			case 6:
				n.RDie, n.Flip = true, []int{r.N(1 << 16)} // the reply is altered
			}
			o.Net = n
			if r.P(1, 8) {
				o.Fault = "crash"
			} else if r.P(1, 6) {
				o.Fault, o.N = "hostcrash", r.In(1, 5)
			}
			if r.P(1, 4) {
				o.Think = r.ms(0, 1500)
			}
			ops = append(ops, o)
		}
		total += len(ops)
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("terminal%d", t), Ops: ops})
	}
	switch r.N(4) {
	case 0:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolPCT, Depth: r.In(1, 8), Horizon: total*3000 + 1000}
	case 1:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolBlock}
	default:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolUniform, Gap: pickOf(r, 10, 60, 200, 1000)}
	}
	return s
}
