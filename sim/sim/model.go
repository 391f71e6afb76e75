package sim

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verif/ref"
)

func newRef(d Dev) (*ref.Dev, error) { return ref.NewDev(d.Alg, d.Type, d.BDK, d.KSN) }

// outcomes a result may have
const (
	mustErr = -1
	either  = 0
	mustOK  = 1
)

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func hexLen(s string) int { // bytes, or -1
	if len(s)%2 != 0 {
		return -1
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return -1
		}
	}
	return len(s) / 2
}

func knownAct(a string) bool { return a == "" || a == "request" || a == "response" }

var desFmt = func() map[string]bool {
	m := map[string]bool{"": true}
	for _, f := range ref.Formats {
		m[f] = true
	}
	delete(m, "ISO-4")
	return m
}()

// longPinFormats are those whose decoder in the pin-block dependency cannot
// read length digits above nine (see known-findings).
var longPinFormats = map[string]bool{"": true, "ISO-0": true, "ISO-3": true, "ANSI": true, "ECI1": true, "VISA1": true, "VISA4": true}

func knownLongPin(d *ref.Dev, pin, format string) bool {
	return !d.AES && longPinFormats[format] && len(pin) >= 10
}

// pinArgs tells whether the arguments of a PIN encryption must be accepted.
func pinArgs(d *ref.Dev, pin, pan, format string) int {
	if !digits(pin) || len(pin) == 0 {
		return mustErr
	}
	if len(pin) < 4 || len(pin) > 12 || !digits(pan) || len(pan) > 19 {
		return either
	}
	if d.AES {
		if len(pan) < 12 {
			return either
		}
		return mustOK
	}
	if !desFmt[format] {
		return either
	}
	if len(pan) < 13 {
		return either
	}
	return mustOK
}

// iv classification: exact, short (zero padded or refused), other
func ivArgs(d *ref.Dev, iv string) int {
	n := hexLen(iv)
	switch {
	case iv == "" || n == d.Block():
		return mustOK
	case n < 0:
		return mustErr
	default:
		return either
	}
}

func trip(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

type cryptoExp struct {
	must  int
	check bool                 // a success is verified
	okAt  func(tc uint32) bool // the observed answer is right at tc
	errAt func(tc uint32) bool // the observed error is allowed at tc
	note  string
}

func never(uint32) bool  { return false }
func always(uint32) bool { return true }

// expect builds the expectation of a cryptographic operation on d.
func expect(h *hop, d *ref.Dev) cryptoExp {
	e := expectPlain(h, d)
	if d.Odd {
		// refused, or right whatever the key type
		e.must, e.errAt = either, always
		return e
	}
	if h.lax {
		if e.must == mustOK {
			e.must = either
		}
		e.errAt = always
	}
	return e
}

func expectPlain(h *hop, d *ref.Dev) cryptoExp {
	a := h.a
	eq := func(x string) bool { return strings.EqualFold(x, h.str) }
	e := cryptoExp{must: either, okAt: always, errAt: always}
	switch h.kind {
	case "epin":
		e.must = pinArgs(d, a.Pin, a.Pan, a.Fmt)
		if e.must == mustOK {
			e.check = true
			e.okAt = func(tc uint32) bool { return d.PinOK(tc, h.str, a.Pin, a.Pan, a.Fmt) }
			e.errAt = never
		}
	case "mac":
		ok := a.Data != "" && knownAct(a.Act)
		if d.AES {
			if a.Mac != "cmac" && a.Mac != "hmac" {
				e.must = mustErr
				ok = false
			}
		}
		if ok {
			e.must, e.check, e.errAt = mustOK, true, never
			e.okAt = func(tc uint32) bool {
				m, err := d.MAC(tc, a.Data, a.Act, a.Mac)
				return err == nil && eq(m)
			}
		}
	case "edata":
		iv := ivArgs(d, a.IV)
		if iv == mustErr {
			e.must = mustErr
			break
		}
		if a.Data != "" && knownAct(a.Act) {
			if iv == mustOK {
				e.must, e.check, e.errAt = mustOK, true, never
				e.okAt = func(tc uint32) bool { return eq(d.Encrypt(tc, a.Data, a.Act, a.IV)) }
			} else if n := hexLen(a.IV); n > 0 && n < d.Block() {
				pad := a.IV + strings.Repeat("00", d.Block()-n)
				e.check = true
				e.okAt = func(tc uint32) bool { return eq(d.Encrypt(tc, a.Data, a.Act, pad)) }
			}
		}
	case "ddata":
		n := hexLen(a.Data)
		iv := ivArgs(d, a.IV)
		if n < 0 || iv == mustErr {
			e.must = mustErr
			break
		}
		if n > 0 && n%d.Block() == 0 && knownAct(a.Act) {
			ivx := a.IV
			if iv == mustOK {
				e.must, e.errAt = mustOK, never
			} else if k := hexLen(a.IV); k > 0 && k < d.Block() {
				ivx = a.IV + strings.Repeat("00", d.Block()-k)
			} else {
				break
			}
			e.check = true
			e.okAt = func(tc uint32) bool {
				p, err := d.Decrypt(tc, a.Data, a.Act, ivx)
				if err != nil {
					return true
				}
				if h.jsonTrip {
					p = trip(p)
				}
				return p == h.str
			}
		}
	case "dpin":
		n := hexLen(a.Data)
		if n < 0 {
			e.must = mustErr
			break
		}
		if n != d.Block() {
			break
		}
		if !d.AES && !desFmt[a.Fmt] {
			break
		}
		e.check = true
		e.okAt = func(tc uint32) bool {
			p, err := d.DecryptPin(tc, a.Data, a.Pan, a.Fmt)
			return err != nil || p == h.str
		}
		e.errAt = func(tc uint32) bool {
			g := genuinePin(h, d, tc)
			if g == "" {
				return true
			}
			return knownLongPin(d, g, a.Fmt)
		}
	}
	return e
}

// genuinePin is the PIN the ciphertext of a decryption was made from, when it
// is decryptable at tc.
func genuinePin(h *hop, d *ref.Dev, tc uint32) string {
	r := h.refHop
	if r == nil || r.kind != "epin" || pinArgs(d, r.a.Pin, r.a.Pan, r.a.Fmt) != mustOK || r.a.Pan != h.a.Pan {
		return ""
	}
	if !d.AES && r.a.Fmt != h.a.Fmt {
		return ""
	}
	p, err := d.DecryptPin(tc, h.a.Data, h.a.Pan, h.a.Fmt)
	want := r.a.Pin
	if !d.AES {
		f := r.a.Fmt
		if f == "" {
			f = "ISO-0"
		}
		want = ref.Carried(f, r.a.Pin)
	}
	if err != nil || p != want {
		return ""
	}
	return p
}

// ---- the machine model -----------------------------------------------------

// A device identity's state: "" when absent, otherwise "reg:counter".
func mkState(reg int, tc uint32) string {
	return strconv.Itoa(reg) + ":" + strconv.FormatUint(uint64(tc), 10)
}

func unState(s string) (reg int, tc uint32, ok bool) {
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return 0, 0, false
	}
	reg, _ = strconv.Atoi(s[:i])
	v, _ := strconv.ParseUint(s[i+1:], 10, 32)
	return reg, uint32(v), true
}

// relaxations used to attribute a failure
type relax struct {
	noCounter  bool // registry only: any counter is accepted
	failEffect bool // failed operations may have had an effect
	anyRefuse  bool // advances may be refused at any time
}

func (w *world) viewMatches(v *view, reg int, tc uint32, rx relax) bool {
	d := w.devs[reg]
	if v.Alg != d.Alg || v.Type != d.Type || v.BDK != d.BDK || v.KSN != d.KSN {
		return false
	}
	if rx.noCounter {
		return true
	}
	t, ok := w.regs[reg].ParseTC(v.Cur)
	return ok && t == tc
}

func isCrypto(k string) bool {
	switch k {
	case "epin", "dpin", "mac", "edata", "ddata":
		return true
	}
	return false
}

// step is the transition of one operation on one device identity.
func (w *world) step(h *hop, ik string, rx relax) func(st string) []string {
	memoOK := map[string]int8{}
	return func(st string) []string {
		reg, tc, present := unState(st)
		same := []string{st}
		var d *ref.Dev
		if present {
			d = w.regs[reg]
		}
		failed := func(allowed bool) []string {
			var out []string
			if allowed || h.faulted {
				out = append(out, st)
			}
			if rx.failEffect && !h.ok {
				if len(out) == 0 {
					out = append(out, st)
				}
				if present {
					if n, ok := d.Next(tc); ok {
						out = append(out, mkState(reg, n))
					}
					out = append(out, "")
				} else if h.spec >= 0 && h.kind == "create" {
					out = append(out, mkState(h.spec, w.regs[h.spec].TC()))
				}
			}
			return out
		}
		switch h.kind {
		case "create":
			if h.incomp {
				if !present {
					return []string{st, mkState(h.spec, w.regs[h.spec].TC())}
				}
				return same
			}
			if h.ok {
				if present {
					return nil
				}
				t := w.regs[h.spec].TC()
				if h.view != nil && !rx.noCounter {
					if v, ok := w.regs[h.spec].ParseTC(h.view.Cur); !ok || v != t {
						return nil
					}
				}
				return []string{mkState(h.spec, t)}
			}
			return failed(present || h.lax || w.lenient(h.spec))
		case "get":
			if h.incomp {
				return same
			}
			if h.ok {
				if !present || h.view == nil || !w.viewMatches(h.view, reg, tc, rx) {
					return nil
				}
				return same
			}
			return failed(!present)
		case "list":
			if h.incomp {
				return same
			}
			if !h.ok {
				return same
			}
			var found *view
			for _, v := range h.views {
				if v.IK == ik {
					found = v
				}
			}
			if (found != nil) != present {
				return nil
			}
			if found != nil && !w.viewMatches(found, reg, tc, rx) {
				return nil
			}
			return same
		case "next":
			var nx string
			can := false
			if present {
				if n, ok := d.Next(tc); ok {
					can = true
					nx = mkState(reg, n)
				}
			}
			if h.incomp {
				if can {
					return []string{st, nx}
				}
				return same
			}
			if h.ok {
				if !present {
					return nil
				}
				if rx.noCounter {
					return same
				}
				if !can {
					return nil
				}
				_, n, _ := unState(nx)
				cur := h.str
				if h.view != nil {
					cur = h.view.Cur
				}
				if t, ok := d.ParseTC(cur); !ok || t != n {
					return nil
				}
				return []string{nx}
			}
			if rx.noCounter {
				return failed(!present || !h.notFound)
			}
			return failed(!present || !can || rx.anyRefuse)
		case "del":
			if h.incomp || h.ik != ik {
				return []string{st, ""} // under another spelling of the identity it may mean it or not
			}
			if h.ok {
				return []string{""}
			}
			return failed(!present)
		}
		if isCrypto(h.kind) {
			if h.incomp {
				return same
			}
			if rx.noCounter {
				if h.ok != present && (h.ok || h.notFound) {
					return failed(false)
				}
				return same
			}
			if !present {
				if h.ok {
					return nil
				}
				return same
			}
			r, seen := memoOK[st]
			if !seen {
				e := expect(h, d)
				r = 0
				if h.ok {
					if e.okAt(tc) {
						r = 1
					}
				} else if e.errAt(tc) {
					r = 1
				}
				memoOK[st] = r
			}
			if r == 1 {
				return same
			}
			if !h.ok {
				return failed(false)
			}
			return nil
		}
		return same
	}
}

// touches tells whether an operation concerns a device identity.
func touches(h *hop, ik string) bool {
	switch h.kind {
	case "list":
		return true
	case "none", "skip", "ping", "options", "":
		return false
	case "create":
		return h.spec >= 0 && h.ik == ik && ik != ""
	case "del":
		return strings.EqualFold(strings.TrimSpace(h.ik), ik)
	}
	return h.ik == ik
}

type wglKind int

func (w *world) wgl(ik string, init string, rx relax, keep func(*hop) bool) wglRes {
	var ops []lop
	for _, h := range w.hist {
		if !touches(h, ik) || (keep != nil && !keep(h)) {
			continue
		}
		ops = append(ops, lop{call: h.call, ret: h.ret, step: w.step(h, ik, rx)})
	}
	return linearizable(ops, init)
}

// issuedInOrder tells whether some order of creations, deletions and advances
// lets every advance move forward within the registration it belongs to.
func (w *world) issuedInOrder(ik, init string) wglRes {
	var ops []lop
	for _, h := range w.hist {
		if !touches(h, ik) || !(h.ok || h.incomp) {
			continue
		}
		var step func(st string) []string
		switch h.kind {
		case "create":
			fresh := mkState(h.spec, w.regs[h.spec].TC())
			step = func(st string) []string {
				if h.ok {
					return []string{fresh}
				}
				return []string{st, fresh}
			}
		case "del":
			step = func(st string) []string {
				if h.ok && h.ik == ik {
					return []string{""}
				}
				return []string{st, ""}
			}
		case "next":
			if h.incomp {
				continue
			}
			cur := h.str
			if h.view != nil {
				cur = h.view.Cur
			}
			step = func(st string) []string {
				reg, tc, present := unState(st)
				if !present { // existence alone is explained, so not at this point
					return nil
				}
				t, ok := w.regs[reg].ParseTC(cur)
				if !ok {
					return []string{st}
				}
				if t <= tc {
					return nil
				}
				return []string{mkState(reg, t)}
			}
		default:
			continue
		}
		ops = append(ops, lop{call: h.call, ret: h.ret, step: step})
	}
	return linearizable(ops, init)
}

func (w *world) groupHist(ik string) string {
	var b strings.Builder
	n := 0
	for _, h := range w.hist {
		if touches(h, ik) {
			if n++; n > 40 {
				b.WriteString("\n  ...")
				break
			}
			b.WriteString("\n  " + h.String())
		}
	}
	return b.String()
}

func (w *world) describe(ik string) string {
	for i, x := range w.iks {
		if x == ik {
			return fmt.Sprintf("%s machine registered at %s (ik %s)", w.devs[i].Alg, w.devs[i].KSN, short(ik))
		}
	}
	return "machine " + short(ik)
}

// aesTypeLen is the length of the keys an AES key type is for.
func aesTypeLen(t string) int {
	return map[string]int{"AES128": 16, "AES192": 24, "AES256": 32}[t]
}

// lenient registrations may be refused: corrupted ones and key types that do
// not fit the key.
func (w *world) lenient(reg int) bool {
	if reg < 0 || reg >= w.nReg || w.regs[reg] == nil {
		return true
	}
	d := w.devs[reg]
	if d.Alg == "aes" {
		return d.Type != map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}[hexLen(d.BDK)]
	}
	return hexLen(d.KSN) != 10
}
