package sim

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"strings"
	"unsafe"

	"github.com/moov-io/dukpt/encryption"
	"github.com/moov-io/dukpt/pkg"
	"github.com/moov-io/dukpt/pkg/aes"
	"github.com/moov-io/dukpt/pkg/des"

	"verif/ref"
	"verif/simrt"
)

// The "lib" scenario: concurrent tasks call the library directly on shared
// buffers. All inputs of a device lie next to each other in one block of
// memory, so that a write within or beyond the length of any of them shows.

// Op.Args of a library call.
const (
	aCap = iota // 0: capacity up to the end of the block, 1: exact, 2: a few bytes more
	aKey        // length of the key argument; 0: right, -1: nil
	aKsn        // length of the key serial number; 0: right, -1: nil
	aIV         // length of the initial vector; 0: one block, -1: nil
	aCT         // length of the ciphertext; 0: right
	aScr        // 1: the caller overwrites the result afterwards
	aNum
)

type libDev struct {
	d       *ref.Dev
	tc      uint32
	mem     []byte
	snap    []byte
	at      map[string]int
	width   map[string]int
	pin     string
	pan     string
	fmt     string
	ecb     ecber
	plain   string
	keyType string
}

type ecber interface {
	Encrypt([]byte) ([]byte, error)
	Decrypt([]byte) ([]byte, error)
}

type libRes struct {
	ti, oi int
	op     Op
	buf    []byte // result memory, as returned
	want   []byte // its content when returned
	line   string
	scr    bool
}

type libWorld struct {
	s    *Spec
	res  *RunResult
	devs []*libDev
	held []*libRes
	hist []string
}

var libFields = []string{"bdk", "ik", "tk", "ksn", "iv", "ct", "pinct", "blk"}

func newLibDev(d Dev, seed uint64) (*libDev, error) {
	rd, err := newRef(d)
	if err != nil {
		return nil, err
	}
	r := NewRNG(seed)
	l := &libDev{d: rd, tc: rd.TC(), at: map[string]int{}, width: map[string]int{}, keyType: d.Type}
	bl := rd.Block()
	l.pin, l.pan = r.digits(r.In(4, 9)), r.digits(r.In(13, 19))
	for {
		l.fmt = ref.Formats[r.N(len(ref.Formats))]
		if ref.Carried(l.fmt, l.pin) == l.pin && !(strings.EqualFold(l.fmt, "ISO-3")) {
			break
		}
	}
	l.plain = r.text(pickOf(r, r.In(1, 60), r.In(1, 60), r.In(1, 60), r.In(61, 600)))
	ksn := rd.KSN
	content := map[string][]byte{"bdk": rd.BDK, "ik": rd.IK, "tk": rd.TK(l.tc), "ksn": ksn, "iv": []byte(r.hex(bl))[:bl]}
	for len(l.plain)%bl != 0 {
		l.plain += "."
	}
	resp := false
	if rd.AES {
		content["ct"] = ref.AesEncrypt(rd.TK(l.tc), ksn, content["iv"], []byte(l.plain), resp)
		content["pinct"], err = ref.AesEncryptPin(rd.TK(l.tc), ksn, l.pin, l.pan, []byte(r.hex(8))[:8])
	} else {
		content["ct"] = ref.DesEncrypt(rd.TK(l.tc), content["iv"], []byte(l.plain), resp)
		content["pinct"], err = ref.DesEncryptPin(rd.TK(l.tc), l.pin, l.pan, l.fmt)
	}
	if err != nil {
		return nil, err
	}
	content["blk"] = []byte(r.hex(bl))[:bl]
	// lay the fields out in a random order with small gaps
	order := append([]string{}, libFields...)
	for i := len(order) - 1; i > 0; i-- {
		j := r.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	n := 5
	for _, f := range order {
		l.at[f] = n
		l.width[f] = len(content[f])
		n += len(content[f]) + pickOf(r, 0, 0, 3, 8)
	}
	n += 64
	l.mem = make([]byte, n)
	for i := range l.mem {
		l.mem[i] = byte(r.N(256))
	}
	for f, b := range content {
		copy(l.mem[l.at[f]:], b)
	}
	l.snap = bytes.Clone(l.mem)
	return l, nil
}

// arg is a slice of the device's memory.
func (l *libDev) arg(field string, length, capMode int) []byte {
	a := l.at[field]
	n := l.width[field]
	if length > 0 {
		n = length
	}
	if length < 0 {
		return nil
	}
	if a+n > len(l.mem) {
		n = len(l.mem) - a
	}
	switch capMode {
	case 1:
		return l.mem[a : a+n : a+n]
	case 2:
		return l.mem[a : a+n : min(a+n+5, len(l.mem))]
	}
	return l.mem[a : a+n]
}

// orig is the same bytes as they were at the start.
func (l *libDev) orig(field string, length int) []byte {
	a := l.at[field]
	n := l.width[field]
	if length > 0 {
		n = length
	}
	if length < 0 {
		return nil
	}
	if a+n > len(l.mem) {
		n = len(l.mem) - a
	}
	return bytes.Clone(l.snap[a : a+n])
}

func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	a, b = a[:cap(a)], b[:cap(b)]
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b)) && b0 < a0+uintptr(len(a))
}

func opArg(o Op, i int) int {
	if i < len(o.Args) {
		return o.Args[i]
	}
	return 0
}

func hmacType(t string) string { return strings.Replace(t, "AES", "HMAC", 1) }

func oddKey(o Op) bool { return opArg(o, aKey) != 0 }

// call performs the operation; exp tells what the answer has to be.
func (l *libDev) call(o Op) (buf []byte, isBuf bool, val string, err error, check func() string, need int) {
	cm := opArg(o, aCap)
	key := func(f string) []byte { return l.arg(f, opArg(o, aKey), cm) }
	ksn := l.arg("ksn", opArg(o, aKsn), cm)
	iv := l.arg("iv", opArg(o, aIV), cm)
	ct := l.arg("ct", opArg(o, aCT), cm)
	isResp := o.Act == "response"
	need = mustOK
	A := l.d.AES
	pin, pan, pfmt, ktype := l.pin, l.pan, l.fmt, l.keyType
	odd := false // PIN, PAN, format or key type of the caller's own choice
	over := func(dst *string, v string) {
		if v != "" {
			*dst = strings.TrimPrefix(v, "=")
			odd = true
		}
	}
	over(&pin, o.Pin)
	over(&pan, o.Pan)
	over(&pfmt, o.Fmt)
	over(&ktype, o.Raw0())
	kl := len(l.arg("tk", opArg(o, aKey), cm))
	defer func() {
		if odd && need == mustOK {
			need = either
		}
		switch o.K {
		case "epin", "dpin", "mac", "edata", "ddata":
			if A && aesTypeLen(strings.Replace(ktype, "HMAC", "AES", 1)) != kl {
				need = mustErr // a key type that is unknown or does not fit
			}
		}
		if odd && o.K == "epin" && !digits(pin) {
			need = mustErr
		}
	}()
	tk, rk := l.orig("tk", opArg(o, aKey)), l.orig("ksn", opArg(o, aKsn))
	riv, rct := l.orig("iv", opArg(o, aIV)), l.orig("ct", opArg(o, aCT))
	// what the argument lengths demand
	goodKey := !oddKey(o)
	if A && oddKey(o) && (kl == 16 || kl == 24 || kl == 32) {
		need = either // right length by accident, wrong for the key type
	} else if !goodKey {
		need = mustErr
	}
	ksnNeed := func(min, max, soft int) {
		n := len(ksn)
		switch {
		case n < soft || n > max:
			need = mustErr
		case n < min && need == mustOK && opArg(o, aKsn) != 0:
			need = either
		}
	}
	eq := func(want []byte) func() string {
		return func() string {
			if !bytes.Equal(buf, want) {
				return fmt.Sprintf("returned %x instead of %x", buf, want)
			}
			return ""
		}
	}
	eqs := func(want string) func() string {
		return func() string {
			if val != want {
				return fmt.Sprintf("returned %q instead of %q", val, want)
			}
			return ""
		}
	}
	switch o.K {
	case "ik":
		isBuf = true
		k := key("bdk")
		if A {
			kl = len(k)
			if oddKey(o) {
				if kl == 16 || kl == 24 || kl == 32 {
					need = mustOK
				} else {
					need = mustErr
				}
			}
			if len(ksn) < 8 {
				need = mustErr
			} else if len(ksn) != 12 && need == mustOK {
				need = either
			}
			buf, err = aes.DerivationOfInitialKey(k, ksn)
			if need != mustErr {
				check = eq(ref.AesIK(l.orig("bdk", opArg(o, aKey)), rk[:8]))
			}
		} else {
			ksnNeed(10, 10, 3)
			buf, err = des.DerivationOfInitialKey(k, ksn)
			if need == mustOK {
				check = eq(ref.DesIK(l.orig("bdk", 0), rk))
			}
		}
	case "tk":
		isBuf = true
		k := key("ik")
		if A {
			if oddKey(o) && (len(k) == 16 || len(k) == 24 || len(k) == 32) {
				need = mustOK
			}
			if len(ksn) != 12 {
				need = mustErr
			}
			buf, err = aes.DeriveCurrentTransactionKey(k, ksn)
			if need == mustOK {
				check = eq(ref.AesTK(l.orig("ik", opArg(o, aKey)), rk))
			}
		} else {
			ksnNeed(10, 10, 3)
			buf, err = des.DeriveCurrentTransactionKey(k, ksn)
			if need == mustOK {
				check = eq(ref.DesTK(l.orig("ik", 0), rk))
			}
		}
	case "epin":
		isBuf = true
		if A {
			if len(ksn) != 12 {
				need = mustErr
			}
			buf, err = aes.EncryptPin(key("tk"), ksn, pin, pan, ktype)
			if need == mustOK {
				check = func() string {
					p, e := ref.AesDecryptPin(tk, rk, buf, l.pan)
					if e != nil || p != l.pin {
						return fmt.Sprintf("the result does not hold the PIN (%v)", e)
					}
					return ""
				}
			}
		} else {
			buf, err = des.EncryptPin(key("tk"), pin, pan, pfmt)
			if need == mustOK {
				check = func() string {
					p, e := ref.DesDecryptPin(tk, buf, l.pan, l.fmt)
					if e != nil || p != l.pin {
						return fmt.Sprintf("the result does not hold the PIN (%v)", e)
					}
					return ""
				}
			}
		}
	case "dpin":
		pc := l.arg("pinct", opArg(o, aCT), cm)
		if o.N == 1 { // of some other origin
			pc = l.arg("blk", opArg(o, aCT), cm)
			odd = true
		}
		if opArg(o, aCT) > 0 && len(pc) != l.d.Block() {
			need = mustErr
		}
		if A {
			if len(ksn) != 12 {
				need = mustErr
			}
			val, err = aes.DecryptPin(key("tk"), ksn, pc, pan, ktype)
		} else {
			val, err = des.DecryptPin(key("tk"), pc, pan, pfmt)
		}
		check = eqs(l.pin)
	case "mac":
		isBuf = true
		if A {
			if len(ksn) != 12 {
				need = mustErr
			}
			if o.Mac == "hmac" {
				buf, err = aes.GenerateHMAC(key("tk"), ksn, o.Data, hmacType(ktype), o.Act)
				if need == mustOK {
					check = eq(ref.AesHMAC(tk, rk, []byte(o.Data), isResp))
				}
			} else {
				buf, err = aes.GenerateCMAC(key("tk"), ksn, o.Data, ktype, o.Act)
				if need == mustOK {
					check = eq(ref.AesCMAC(tk, rk, []byte(o.Data), isResp))
				}
			}
		} else {
			buf, err = des.GenerateMac(key("tk"), o.Data, o.Act)
			if need == mustOK {
				check = eq(ref.DesMAC(tk, []byte(o.Data), isResp))
			}
		}
	case "edata":
		isBuf = true
		if A {
			if len(ksn) != 12 {
				need = mustErr
			}
			buf, err = aes.EncryptData(key("tk"), ksn, iv, o.Data, ktype, o.Act)
			if need == mustOK {
				check = eq(ref.AesEncrypt(tk, rk, riv, []byte(o.Data), isResp))
			}
		} else {
			buf, err = des.EncryptData(key("tk"), iv, o.Data, o.Act)
			if need == mustOK {
				check = eq(ref.DesEncrypt(tk, riv, []byte(o.Data), isResp))
			}
		}
		if need == mustOK && opArg(o, aIV) > 0 && opArg(o, aIV) != l.d.Block() {
			need = either
		}
	case "ddata":
		if A {
			if len(ksn) != 12 {
				need = mustErr
			}
			val, err = aes.DecryptData(key("tk"), ksn, ct, iv, ktype, o.Act)
			if need == mustOK {
				check = eqs(string(ref.AesDecrypt(tk, rk, riv, rct, isResp)))
			}
		} else {
			val, err = des.DecryptData(key("tk"), ct, iv, o.Act)
			if need == mustOK {
				check = eqs(string(ref.DesDecrypt(tk, riv, rct, isResp)))
			}
		}
		if need == mustOK && (opArg(o, aIV) > 0 && opArg(o, aIV) != l.d.Block() || len(ct)%l.d.Block() != 0) {
			need = either
		}
	case "next":
		isBuf = true
		need = mustOK
		tc, more := l.d.Next(l.tc)
		if !more {
			need = mustErr
		}
		if A {
			if len(ksn) != 12 {
				need = mustErr
			}
			buf, err = pkg.GenerateNextAesKsn(ksn)
			if need == mustOK {
				check = eq(ref.AesWithTC(rk, tc))
			}
		} else {
			if more {
				ksnNeed(10, 10, 3)
			} else if opArg(o, aKsn) != 0 {
				need = either
			}
			buf, err = pkg.GenerateNextDesKsn(ksn)
			if need == mustOK {
				check = eq(ref.DesWithTC(rk, tc))
			}
		}
	case "gettc":
		need = mustOK
		var tc uint32
		if A {
			tc = pkg.GetAesTcFromKsn(ksn)
			_ = pkg.IsValidAesKsn(ksn)
		} else {
			tc = pkg.GetDesTcFromKsn(ksn)
		}
		val = fmt.Sprint(tc)
		if opArg(o, aKsn) == 0 {
			check = eqs(fmt.Sprint(l.tc))
		}
	case "ecbe", "ecbd":
		isBuf = true
		need = mustOK
		b := l.arg("blk", opArg(o, aCT), cm)
		if len(b) != l.d.Block() {
			need = mustErr
		}
		if o.K == "ecbe" {
			buf, err = l.ecb.Encrypt(b)
		} else {
			buf, err = l.ecb.Decrypt(b)
		}
		if need == mustOK {
			check = eq(ref.ECB(l.orig("tk", 0), l.orig("blk", 0), A, o.K == "ecbd"))
		}
	case "newecb":
		var e2 ecber
		k := key("tk")
		if A {
			x, e := encryption.NewAesECB(k)
			err = e
			if e == nil {
				e2 = x
			}
		} else {
			x, e := encryption.NewTripleDesECB(k)
			err = e
			if e == nil {
				e2 = x
			}
		}
		if oddKey(o) {
			switch {
			case A && (kl == 16 || kl == 24 || kl == 32), !A && (kl == 16 || kl == 24):
				need = mustOK
			default:
				need = mustErr
			}
		} else {
			need = mustOK
		}
		if err == nil && need == mustOK {
			buf, err = e2.Encrypt(l.arg("blk", 0, cm))
			isBuf = true
			check = eq(ref.ECB(l.orig("tk", opArg(o, aKey)), l.orig("blk", 0), A, false))
		}
	case "hexe":
		need = mustOK
		b := l.arg("ct", opArg(o, aCT), cm)
		val = pkg.HexEncode(b)
		check = func() string {
			if !strings.EqualFold(val, hex.EncodeToString(l.orig("ct", opArg(o, aCT)))) {
				return fmt.Sprintf("returned %q", val)
			}
			return ""
		}
	case "hexd":
		need = mustOK
		isBuf = true
		buf = pkg.HexDecode(o.Raw)
		if w, e := hex.DecodeString(o.Raw); e == nil {
			check = eq(w)
		} else {
			check = func() string {
				if len(buf) != 0 {
					return fmt.Sprintf("decoded %q to %x", o.Raw, buf)
				}
				return ""
			}
		}
	}
	return
}

func libGuard(f func()) (pan string) {
	defer func() {
		if simrt.Aborting() {
			return
		}
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	f()
	return
}

func (w *libWorld) checkMem(ti, oi int, o Op) {
	for di, l := range w.devs {
		if l == nil || bytes.Equal(l.mem, l.snap) {
			continue
		}
		var what []string
		for i := range l.mem {
			if l.mem[i] != l.snap[i] {
				where := "memory between the arguments"
				for _, f := range libFields {
					if i >= l.at[f] && i < l.at[f]+l.width[f] {
						where = "argument " + f
					}
				}
				what = append(what, fmt.Sprintf("%s (offset %d: %02x became %02x)", where, i, l.snap[i], l.mem[i]))
				if len(what) > 3 {
					break
				}
			}
		}
		w.res.add("C15", "input-modified", fmt.Sprintf("after or during task %d op %d (%s on device %d, %v): memory of the inputs of device %d was modified: %s", ti, oi, o.K, o.Dev, o.Args, di, strings.Join(what, ", ")))
		copy(l.mem, l.snap)
	}
}

func runLib(s *Spec, res *RunResult) {
	simrt.SeedEntropy(s.Seed)
	w := &libWorld{s: s, res: res}
	for i, d := range s.Devs {
		l, err := newLibDev(d, s.Seed*31+uint64(i))
		if err != nil {
			w.devs = append(w.devs, nil)
			continue
		}
		w.devs = append(w.devs, l)
	}
	var live = len(s.Tasks)
	var defs []simrt.TaskDef
	simrt.Setup = func() bool {
		for i, l := range w.devs {
			if l == nil {
				continue
			}
			pan := libGuard(func() {
				if l.d.AES {
					x, e := encryption.NewAesECB(l.arg("tk", 0, 0))
					if e == nil {
						l.ecb = x
					}
				} else {
					x, e := encryption.NewTripleDesECB(l.arg("tk", 0, 0))
					if e == nil {
						l.ecb = x
					}
				}
			})
			if pan != "" || l.ecb == nil {
				res.add("C09", "ecb", fmt.Sprintf("no cipher object for device %d: %s", i, pan))
				w.devs[i] = nil
			}
		}
		return true
	}
	for ti := range s.Tasks {
		ti := ti
		t := s.Tasks[ti]
		defs = append(defs, simrt.TaskDef{Name: t.Name, Fn: func() {
			for oi, o := range t.Ops {
				w.do(ti, oi, o)
			}
			live--
		}})
	}
	defs = append(defs, simrt.TaskDef{Name: "final", Fn: func() {
		simrt.Block(readyFn(func() bool { return live == 0 }), "tasks")
		w.checkMem(finalTask, 0, Op{K: "end"})
		w.checkHeld("at the end")
	}})
	res.Out = simrt.Run(s.Cfg, defs)
	if res.Out.Crash != "" {
		res.add("C09", "crash", "a goroutine of the library crashed: "+res.Out.Crash)
	}
	if res.Out.Deadlock != "" {
		res.add("C15", "deadlock", "library calls wait for each other for ever: "+res.Out.Deadlock)
	}
	if res.Out.StepLimit {
		res.add("C09", "no-answer", "a library call never returns")
	}
	res.Trace = w.hist
	f := fnv.New64a()
	for _, h := range w.hist {
		f.Write([]byte(h))
	}
	res.HistHash = f.Sum64()
}

type readyFn func() bool

func (f readyFn) Ready() bool { return f() }

func (w *libWorld) checkHeld(when string) {
	for _, h := range w.held {
		if !bytes.Equal(h.buf, h.want) {
			w.res.add("C15", "result-changed", fmt.Sprintf("%s: the result of task %d op %d (%s) changed after it was returned, from %x to %x", when, h.ti, h.oi, h.op.K, h.want, h.buf))
			h.want = bytes.Clone(h.buf)
		}
	}
}

func (w *libWorld) do(ti, oi int, o Op) {
	if o.K == "nop" || o.K == "" {
		return
	}
	l := w.devs[o.Dev]
	if l == nil {
		return
	}
	var buf []byte
	var isBuf bool
	var val string
	var err error
	var check func() string
	var need int
	pan := libGuard(func() { buf, isBuf, val, err, check, need = l.call(o) })
	simrt.Cur().NoPre++
	defer func() { simrt.Cur().NoPre-- }()
	w.res.Ops++
	id := fmt.Sprintf("t%d.%d %s dev%d %v", ti, oi, o.K, o.Dev, o.Args)
	out := ""
	switch {
	case pan != "":
		out = "panic: " + pan
	case err != nil:
		out = "error: " + err.Error()
	case o.K == "epin":
		out = "ok"
	case isBuf:
		out = fmt.Sprintf("%x", buf)
	default:
		out = fmt.Sprintf("%q", val)
	}
	w.hist = append(w.hist, id+" = "+out)
	odd := false
	for i, a := range o.Args {
		if i >= aKey && i <= aCT && a != 0 && !(i == aIV && a < 0) {
			odd = true
		}
	}
	if odd {
		w.res.Faults["argument of another length"]++
	}
	w.checkMem(ti, oi, o)
	if pan != "" {
		w.res.add("C09", "panic", fmt.Sprintf("library call %s crashed: %s", id, pan))
		w.res.add("C15", resultOracle(ti, oi), fmt.Sprintf("%s crashed: %s", id, pan))
		return
	}
	if err != nil && isBuf && len(buf) > 0 {
		w.res.add("C09", "partial", fmt.Sprintf("%s returned an error together with a result", id))
	}
	switch need {
	case mustErr:
		if err == nil {
			if o.K == "next" && opArg(o, aKsn) == 0 {
				w.res.add("C03", "lib-beyond", fmt.Sprintf("%s: a key serial number beyond the last was issued: %s", id, out))
			} else {
				w.res.add("C09", "accepted", fmt.Sprintf("%s: malformed arguments were accepted: %s", id, out))
			}
		}
	case mustOK:
		if err != nil {
			w.res.add("C15", resultOracle(ti, oi), fmt.Sprintf("%s: %s", id, out))
		} else if check != nil {
			if m := check(); m != "" {
				w.res.add("C15", resultOracle(ti, oi), fmt.Sprintf("%s: %s", id, m))
			}
		}
	}
	if isBuf && len(buf) > 0 && err == nil {
		for di, x := range w.devs {
			if x != nil && overlap(buf, x.mem) {
				w.res.add("C15", "result-aliases-input", fmt.Sprintf("%s: the result shares memory with the inputs of device %d", id, di))
				return
			}
		}
		w.checkHeld("after " + id)
		if opArg(o, aScr) == 1 {
			for i := range buf {
				buf[i] ^= 0xA5
			}
			w.checkHeld("after the holder of the result of " + id + " changed it")
			w.checkMem(ti, oi, o)
		}
		w.held = append(w.held, &libRes{ti: ti, oi: oi, op: o, buf: buf, want: bytes.Clone(buf)})
	}
}

func resultOracle(ti, oi int) string { return fmt.Sprintf("result-%d-%d", ti, oi) }

// settleLib keeps a wrong result as a finding of C15 only if the same call made
// alone in a fresh process is right.
func settleLib(s *Spec, res *RunResult) {
	var keep []Finding
	for _, f := range res.Findings {
		var ti, oi int
		if n, _ := fmt.Sscanf(f.Oracle, "result-%d-%d", &ti, &oi); n == 2 {
			if s.Prop != "C15" {
				continue
			}
			v := s.clone()
			v.Warm = nil
			o := s.Tasks[ti].Ops[oi]
			for i := range v.Tasks {
				for j := range v.Tasks[i].Ops {
					if i != ti || j != oi {
						v.Tasks[i].Ops[j] = Op{K: "nop"}
					}
				}
			}
			v.Tasks[ti].Ops[oi] = o
			v.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolBlock, MaxSteps: s.Cfg.MaxSteps}
			wrong := false
			for _, g := range once(v).Findings {
				if g.Oracle == f.Oracle {
					wrong = true
				}
			}
			if wrong {
				continue // wrong on its own: not a matter of sharing
			}
			f.Oracle = "result"
			f.Msg = "differs from the same call made alone: " + f.Msg
		}
		keep = append(keep, f)
	}
	res.Findings = nil
	for _, f := range keep {
		if f.Known != "" {
			res.Findings = append(res.Findings, f)
		} else {
			res.add(f.Prop, f.Oracle, f.Msg)
		}
	}
}

func init() {
	Register("lib", runLib)
	gens["C15"] = genLib
}

// Raw0 is the key type an operation names itself.
func (o Op) Raw0() string {
	if o.K == "hexd" {
		return ""
	}
	return o.Raw
}

// oddText has a library call name a PIN, PAN, format or key type that may not
// be usable ("=" stands before it).
func (r *RNG) oddText(o *Op, d Dev) {
	for i := range o.Args[aKey : aCT+1] {
		o.Args[aKey+i] = 0
	}
	switch r.N(5) {
	case 0:
		o.K = "epin"
		o.Pin = "=" + pickOf(r, "", "1", "12", "123", "12a4", "abcd", "ABCDEF", "1234g", r.digits(13), r.digits(40), "１２３４", "12 4", "-123", "+1234", "12.4", r.text(r.In(1, 20)), r.hex(r.In(2, 6)))
	case 1:
		o.K = pickOf(r, "epin", "dpin")
		o.Pan = "=" + pickOf(r, "", "1", r.digits(11), r.digits(12), r.digits(20), r.digits(60), "4111x1111111111", "abcdefghijklm", r.text(r.In(1, 20)))
	case 2:
		o.K = pickOf(r, "epin", "dpin")
		o.Fmt = "=" + pickOf(r, append([]string{"", "ISO-9", "foo", "iso0", " ", "iso-0"}, ref.Formats...)...)
	case 3:
		o.K = "dpin"
		o.N = 1
		if r.P(1, 2) {
			o.Fmt = "=" + r.format()
		}
	case 4:
		o.K = pickOf(r, "epin", "dpin", "mac", "edata", "ddata")
		o.Raw = "=" + pickOf(r, "", "AES", "AES128", "AES192", "AES256", "AES512", "2TDEA", "3TDEA", "HMAC128", "HMAC256", "aes128", r.text(5))
	}
}

var libOps = []string{"ik", "tk", "tk", "epin", "dpin", "mac", "mac", "edata", "edata", "ddata", "ddata", "next", "next", "gettc", "ecbe", "ecbd", "newecb", "hexe", "hexd"}

func genLib(prop string, seed uint64) *Spec {
	r := NewRNG(seed ^ fnvs(prop+"lib"))
	s := &Spec{Prop: prop, Kind: "lib", Seed: seed, P: map[string]int64{}}
	nd := r.In(1, 2)
	for i := 0; i < nd; i++ {
		bias := pickOf(r, "", "", "zero", "skip", "carry", "block", "end")
		s.Devs = append(s.Devs, r.dev("", bias))
	}
	malformed := 12
	if prop == "C09" {
		malformed = 60
	}
	nt := r.In(1, 4)
	total := 0
	for t := 0; t < nt; t++ {
		var ops []Op
		n := r.In(2, 7)
		for len(ops) < n {
			dev := r.N(nd)
			o := Op{K: libOps[r.N(len(libOps))], Dev: dev, Args: make([]int, aNum)}
			o.Args[aCap] = pickOf(r, 0, 0, 0, 1, 2)
			o.Data, o.Act = r.data(), r.act()
			o.Mac = pickOf(r, "cmac", "hmac")
			if r.P(1, 4) {
				o.Args[aIV] = -1
			}
			if r.P(1, 4) {
				o.Args[aScr] = 1
			}
			if o.K == "hexd" {
				o.Raw = pickOf(r, r.hex(r.In(1, 20)), r.hex(8)+"z", strings.ToUpper(r.hex(12)), "0", "")
			}
			if o.K == "dpin" || o.K == "ddata" {
				o.Act = "request"
			}
			if o.K == "newecb" && r.P(1, 3) {
				o.Args[aKey] = pickOf(r, 16, 24, 24, 32)
				if o.Args[aKey] == len(s.Devs[dev].BDK)/2 {
					o.Args[aKey] = 0
				}
			} else if r.pct(malformed) {
				switch r.N(4) {
				case 0:
					o.Args[aKey] = pickOf(r, -1, 1, 7, 8, 15, 17, 23, 24, 25, 16, 31, 32, 33, 40)
				case 1:
					o.Args[aKsn] = pickOf(r, -1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 16, 20)
				case 2:
					o.Args[aIV] = pickOf(r, -1, 1, 7, 8, 9, 15, 16, 17, 32)
				case 3:
					o.Args[aCT] = pickOf(r, 1, 7, 8, 9, 15, 16, 17, 24, 31, 33, 40)
				}
				if r.P(1, 2) {
					r.oddText(&o, s.Devs[dev])
				}
				// a length that is the right one is the ordinary case
				d := s.Devs[dev]
				if o.Args[aKsn] > 0 && o.Args[aKsn] == len(d.KSN)/2 {
					o.Args[aKsn] = 0
				}
				if o.Args[aKey] > 0 && o.Args[aKey] == len(d.BDK)/2 {
					o.Args[aKey] = 0
				}
			}
			ops = append(ops, o)
		}
		total += len(ops)
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("caller%d", t), Ops: ops})
	}
	switch r.N(4) {
	case 0:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolPCT, Depth: r.In(1, 8), Horizon: total * 400}
	case 1:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolUniform, Gap: pickOf(r, 2, 5, 12)}
	default:
		s.Cfg = simrt.Config{Seed: seed, Policy: simrt.PolUniform, Gap: pickOf(r, 20, 60, 200)}
	}
	return s
}
