package sim

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/bits"
	"net/url"
	"strings"

	"verif/ref"
	"verif/simrt"
)

const hexd = "0123456789abcdef"

func (r *RNG) hex(n int) string {
	b := make([]byte, 2*n)
	for i := range b {
		b[i] = hexd[r.N(16)]
	}
	return string(b)
}

func (r *RNG) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.N(10))
	}
	return string(b)
}

func (r *RNG) text(n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;-_/+=\"'\\<>&{}[]%\té€"
	rs := []rune(al)
	if r.P(1, 5) { // what a parser, a trimmer or an encoder may treat specially
		rs = append(rs, []rune("\n\r\v\x00\x00\x01\x7f\u0085\u00a0\u0301\u2028\ufeff\ufffd😀")...)
	}
	b := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		b = append(b, rs[r.N(len(rs))])
	}
	return string(b)
}

var lastDes, lastAes []uint32 // last counter values, descending

func lastTCs(aes bool) []uint32 {
	if aes {
		if lastAes == nil {
			lastAes = chainDown(ref.AesMax, 16, 24)
		}
		return lastAes
	}
	if lastDes == nil {
		lastDes = chainDown(ref.DesMax, 10, 24)
	}
	return lastDes
}

func chainDown(from uint32, lim, n int) []uint32 {
	out := []uint32{from}
	for v := from - 1; len(out) < n; v-- {
		if bits.OnesCount32(v) <= lim {
			out = append(out, v)
		}
	}
	return out
}

// tc picks a starting counter value; bias names where it should lie.
func (r *RNG) tc(aes bool, bias string) uint32 {
	width, lim := 21, 10
	if aes {
		width, lim = 32, 16
	}
	max := uint32(ref.DesMax)
	if aes {
		max = ref.AesMax
	}
	fit := func(v uint32) uint32 {
		if !aes {
			v &= 0x1FFFFF
		}
		for bits.OnesCount32(v) > lim || v > max {
			// clear a random set bit
			k := r.N(bits.OnesCount32(v))
			for i := 0; i < 32; i++ {
				if v&(1<<uint(i)) != 0 {
					if k == 0 {
						v &^= 1 << uint(i)
						break
					}
					k--
				}
			}
		}
		return v
	}
	switch bias {
	case "end":
		l := lastTCs(aes)
		return l[r.N(8)]
	case "atend":
		return lastTCs(aes)[r.N(2)]
	case "zero":
		return 0
	case "skip": // just before values with too many one-bits
		v := uint32(0)
		n := lim - r.N(2)
		lowOnes := 1 + r.N(6)
		for i := 0; i < lowOnes; i++ {
			v |= 1 << uint(i)
		}
		for bits.OnesCount32(v) < n {
			v |= 1 << uint(lowOnes+1+r.N(width-lowOnes-1))
		}
		return fit(v)
	case "carry":
		k := r.In(1, width-2)
		v := uint32(1)<<uint(k) - 1
		if bits.OnesCount32(v) > lim { // keep only as many low ones as allowed
			v = uint32(1)<<uint(k) - uint32(1)<<uint(k-lim)
		}
		if v > 2 && r.P(1, 2) {
			v -= uint32(r.N(3))
		}
		if r.P(1, 3) {
			v |= 1 << uint(r.In(k, width-1))
		}
		return fit(v)
	case "block": // around a run of one-bits anywhere
		l := r.In(2, lim)
		v := (uint32(1)<<uint(l) - 1) << uint(r.In(0, width-l))
		if n := bits.OnesCount32(v); n < lim && r.P(1, 3) {
			v |= uint32(1)<<uint(r.In(1, lim-n)) - 1
		}
		v = fit(v)
		for k := r.N(4); k > 0 && v > 0; k-- {
			for v--; bits.OnesCount32(v) > lim; v-- {
			}
		}
		return v
	case "bit":
		return fit(1<<uint(r.N(width)) | uint32(r.N(3)))
	default:
		v := uint32(r.U())
		v &= uint32(r.U()) | uint32(r.U()) // thinner
		return fit(v)
	}
}

func (r *RNG) anyTC(aes bool) uint32 {
	return r.tc(aes, pickOf(r, "zero", "skip", "carry", "bit", "rand", "rand", "rand", "end", "skip", "carry", "block", "block"))
}

// dev makes a registration.
func (r *RNG) dev(alg, bias string) Dev {
	if alg == "" {
		alg = pickOf(r, "des", "aes")
	}
	var tc uint32
	if bias == "" {
		tc = r.anyTC(alg == "aes")
	} else {
		tc = r.tc(alg == "aes", bias)
	}
	var d Dev
	if alg == "des" {
		b := []byte("")
		ksn := make([]byte, 10)
		for i := range ksn {
			ksn[i] = byte(r.N(256))
		}
		if r.P(2, 3) {
			ksn[0], ksn[1] = 0xff, 0xff
		}
		_ = b
		ksn = ref.DesWithTC(ksn, tc)
		if r.P(1, 14) { // the standard pads shorter ones on the left
			ksn = ksn[r.In(1, 6):]
		}
		d = Dev{Alg: "des", BDK: r.hex(16), KSN: fmt.Sprintf("%x", ksn)}
		if r.P(1, 4) {
			d.Type = pickOf(r, "AES128", "x", "aes128")
		}
	} else {
		n := pickOf(r, 16, 24, 32)
		ksn := make([]byte, 12)
		for i := range ksn {
			ksn[i] = byte(r.N(256))
		}
		d = Dev{Alg: "aes", Type: map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}[n], BDK: r.hex(n), KSN: fmt.Sprintf("%x", ref.AesWithTC(ksn, tc))}
	}
	if r.P(1, 5) {
		d.KSN = strings.ToUpper(d.KSN)
	}
	if r.P(1, 5) {
		d.BDK = strings.ToUpper(d.BDK)
	}
	return d
}

// twin is another registration of the same device identity at another counter.
func (r *RNG) twin(d Dev) Dev {
	aes := d.Alg == "aes"
	t := d
	t.Pre = false
	rd, err := newRef(d)
	if err != nil {
		return t
	}
	t.KSN = rd.KSNAt(r.anyTC(aes))
	return t
}

// near is a registration that differs from d in a single bit of its base key
// or of the device part of its key serial number (most often close to the
// counter).
func (r *RNG) near(d Dev) Dev {
	t := d
	t.Pre = false
	flip := func(h string, bit int) string { // bit counts from the right
		b, err := hex.DecodeString(h)
		if err != nil || bit >= 8*len(b) {
			return h
		}
		b[len(b)-1-bit/8] ^= 1 << uint(bit%8)
		return fmt.Sprintf("%x", b)
	}
	low := 21
	if d.Alg == "aes" {
		low = 32
	}
	switch r.N(4) {
	case 0:
		t.BDK = flip(d.BDK, r.N(4*len(d.BDK)))
	case 1:
		t.KSN = flip(d.KSN, r.In(low, 4*len(d.KSN)-1))
	default:
		t.KSN = flip(d.KSN, low+r.N(12))
	}
	return t
}

func (r *RNG) pin() string { return r.digits(pickOf(r, 4, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12)) }
func (r *RNG) pan() string { return r.digits(pickOf(r, 13, 14, 15, 16, 16, 16, 17, 18, 19)) }
func (r *RNG) format() string {
	for {
		f := pickOf(r, append([]string{""}, ref.Formats...)...)
		if f != "ISO-4" {
			return f
		}
	}
}
func (r *RNG) act() string { return pickOf(r, "request", "request", "response", "response", "") }
func (r *RNG) size() int {
	return pickOf(r, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 100, 129, 200)
}

func (r *RNG) data() string {
	if r.P(1, 80) {
		return r.text(pickOf(r, 255, 256, 257, 511, 513, 1000, 1024, 2049, 4095, 4097, 8200, 16390, 20000))
	}
	s := r.text(r.size())
	if r.P(1, 4) {
		s = r.digits(r.size())
	}
	return s
}

// crypto fills in a cryptographic operation of kind k for d.
func (r *RNG) crypto(k string, dev int, d Dev) Op {
	o := Op{K: k, Dev: dev}
	bl := 8
	if d.Alg == "aes" {
		bl = 16
	}
	switch k {
	case "epin", "dpin":
		o.Pin, o.Pan, o.Fmt = r.pin(), r.pan(), r.format()
		if k == "dpin" {
			o.Data = r.hex(bl)
		}
	case "mac":
		o.Data, o.Act = r.data(), r.act()
		o.Mac = pickOf(r, "cmac", "hmac")
	case "edata", "ddata":
		o.Data, o.Act = r.data(), r.act()
		if k == "ddata" {
			o.Data = r.hex(bl * r.In(1, 5))
		}
		o.IV = ""
		if r.P(3, 5) {
			o.IV = r.hex(bl)
		} else if r.P(1, 8) {
			o.IV = r.hex(r.In(1, bl-1))
		}
	}
	return o
}

// pair appends an encryption and its decryption.
func (r *RNG) pair(ops []Op, dev int, d Dev, rest bool) []Op {
	if r.P(1, 2) {
		e := r.crypto("epin", dev, d)
		e.REST = rest
		ops = append(ops, e)
		ops = append(ops, Op{K: "dpin", Dev: dev, Pan: e.Pan, Fmt: e.Fmt, Ref: len(ops), REST: rest})
		return ops
	}
	e := r.crypto("edata", dev, d)
	e.REST = rest
	ops = append(ops, e)
	return append(ops, Op{K: "ddata", Dev: dev, Act: e.Act, IV: e.IV, Ref: len(ops), REST: rest})
}

func (r *RNG) ms(a, b int) int64 { return int64(r.In(a, b)) * 1_000_000 }

// net draws the fate of a request.
func (r *RNG) net(mild bool) *Net {
	n := &Net{}
	if r.P(1, 3) {
		n.Delay = int64(r.In(0, 4000)) * 1000
	}
	if mild {
		return n
	}
	switch r.N(9) {
	case 0:
		n.Dup = r.In(1, 2)
		n.DupDelay = int64(r.In(0, 5000)) * 1000
	case 1:
		n.DropReq = true
		n.Retry = r.N(2)
	case 2:
		n.DropResp = true
		n.Retry = r.N(3)
	case 3:
		n.RDie = true
		n.Retry = r.N(2)
	case 4:
		n.Chunk = r.In(1, 90)
		n.Pace = int64(r.In(0, 300)) * 1000
	case 5:
		n.Cut = r.In(1, 260)
	case 6:
		n.Delay = r.ms(0, 40)
	}
	return n
}

// damage has a request arrive with bytes other than those sent.
func (r *RNG) damage(o *Op) {
	if o.Net == nil {
		o.Net = &Net{}
	}
	for k := r.In(1, 3); k > 0; k-- {
		o.Net.Flip = append(o.Net.Flip, r.N(1<<16))
	}
}

// notHex spoils hexadecimal text at one place, sometimes beyond its due length.
func (r *RNG) notHex(h string) string {
	if r.P(1, 2) {
		h += r.hex(r.In(1, 20))
	}
	if h == "" {
		return pickOf(r, "z", "0x", " ")
	}
	i := r.N(len(h))
	if r.P(1, 3) {
		i = len(h) - 1 - r.N(min(2, len(h)))
	}
	switch r.N(4) {
	case 0:
		return h[:i] + h[i+1:] // an odd number of digits
	case 1:
		return h[:i] + pickOf(r, " ", "-", ":", "\n") + h[i:]
	default:
		return h[:i] + pickOf(r, "g", "G", "z", " ", "é", "\x00", "/", "@", "`", ":") + h[i+1:]
	}
}

func pkgMask(names ...string) uint64 {
	var m uint64
	for i, p := range simrt.Pkgs {
		for _, n := range names {
			if p == n {
				m |= 1 << uint(i)
			}
		}
	}
	return m
}

// cfg draws a scheduling strategy.
func (r *RNG) cfg(seed uint64, horizon int) simrt.Config {
	c := simrt.Config{Seed: seed}
	switch r.N(10) {
	case 0, 1, 2:
		c.Policy, c.Gap = simrt.PolUniform, pickOf(r, 2, 4, 10, 30)
		c.Mask = pkgMask("/pkg/server")
	case 3, 4:
		c.Policy, c.Gap = simrt.PolUniform, pickOf(r, 5, 20, 60)
		c.Mask = pkgMask("/pkg/server", "/pkg")
	case 5, 6:
		c.Policy, c.Gap = simrt.PolUniform, pickOf(r, 20, 80, 300, 1000)
	case 7:
		c.Policy, c.Gap = simrt.PolUniform, pickOf(r, 3, 15, 60)
		c.Mask = pkgMask("/pkg/des", "/pkg/aes", "/encryption")
	default:
		c.Policy, c.Depth, c.Horizon = simrt.PolPCT, r.In(1, 8), horizon
	}
	return c
}

type weights map[string]int

var wOrder = []string{"next", "get", "list", "create", "del", "epin", "mac", "edata", "ddata", "dpin", "pair"}

func (r *RNG) weighted(w weights) string {
	t := 0
	for _, k := range wOrder {
		t += w[k]
	}
	x := r.N(t)
	for _, k := range wOrder {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return "next"
}

// Gen makes the run of a property for a seed.
func Gen(prop string, seed uint64) *Spec {
	simrt.SeedEntropy(seed) // some arguments are made by randomised encryption
	if g := gens[prop]; g != nil {
		return g(prop, seed)
	}
	r := NewRNG(seed ^ fnvs(prop))
	if prop == "C09" && r.P(1, 3) {
		return genLib(prop, seed)
	}
	s := &Spec{Prop: prop, Kind: "svc", Seed: seed, P: map[string]int64{}}
	if r.genRare(s) {
		return s
	}
	switch prop {
	case "C01":
		w := weights{"next": 10, "get": 1, "list": 1, "mac": 1}
		if r.P(1, 4) {
			w["create"], w["del"] = 3, 2
		}
		r.genMixed(s, w, mix{tasks: [2]int{2, 5}, ops: [2]int{1, 6}, devs: [2]int{1, 2}, rest: 35, net: 60, sameShape: 30})
	case "C02":
		if r.P(1, 3) {
			r.genLong(s)
		} else {
			r.genMixed(s, weights{"next": 9, "get": 2, "list": 1, "mac": 1, "epin": 1, "create": 1}, mix{tasks: [2]int{1, 4}, ops: [2]int{2, 9}, devs: [2]int{1, 3}, rest: 35, net: 50, twins: 30, sameShape: 30})
		}
	case "C03":
		r.genMixed(s, weights{"next": 10, "get": 2, "list": 1, "mac": 1, "edata": 1, "epin": 1, "create": 1}, mix{tasks: [2]int{1, 4}, ops: [2]int{2, 9}, devs: [2]int{1, 3}, rest: 40, net: 30, bias: pickOf(r, "end", "atend", "end", "end"), twins: 10})
	case "C04":
		r.genMixed(s, weights{"next": 6, "get": 5, "list": 3, "create": 3, "del": 1}, mix{tasks: [2]int{1, 4}, ops: [2]int{2, 7}, devs: [2]int{1, 4}, rest: 40, net: 20, twins: 20, lit: 15, unreg: 50, sameShape: 40})
	case "C05":
		r.genMixed(s, weights{"next": 5, "epin": 3, "mac": 4, "edata": 4, "ddata": 2, "pair": 3}, mix{tasks: [2]int{1, 5}, ops: [2]int{2, 6}, devs: [2]int{1, 3}, rest: 40, net: 25, sameShape: 30})
	case "C06":
		r.genMixed(s, weights{"create": 6, "get": 4, "list": 4, "del": 4, "next": 3, "mac": 1}, mix{tasks: [2]int{2, 5}, ops: [2]int{2, 6}, devs: [2]int{1, 4}, rest: 30, net: 25, twins: 40, unreg: 60, sameShape: 30, alias: 4})
	case "C07":
		r.genMixed(s, weights{"create": 4, "get": 2, "list": 1, "del": 2, "next": 5, "mac": 2, "epin": 3, "edata": 2, "ddata": 2, "dpin": 1}, mix{tasks: [2]int{1, 3}, ops: [2]int{3, 9}, devs: [2]int{1, 3}, rest: 35, net: 15, twins: 30, unreg: 50, faults: 25, bad: 30, bias: pickOf(r, "", "", "end", "atend"), oneTask: 50, odd: 8})
	case "C08":
		r.genMixed(s, weights{"create": 4, "get": 5, "list": 4, "del": 2, "next": 6, "mac": 2, "epin": 1}, mix{tasks: [2]int{1, 3}, ops: [2]int{3, 9}, devs: [2]int{1, 3}, rest: 15, twins: 15, unreg: 60, scrib: 40, lit: 10, sameShape: 30})
	case "C09":
		r.genMixed(s, weights{"create": 3, "get": 2, "list": 1, "next": 3, "mac": 2, "epin": 3, "edata": 3, "ddata": 3, "dpin": 3}, mix{tasks: [2]int{1, 3}, ops: [2]int{3, 10}, devs: [2]int{1, 3}, rest: 60, net: 50, hostile: 45, bad: 40, unreg: 40, damage: 15, odd: 10, bias: pickOf(r, "", "", "", "end")})
	case "C10":
		r.genMixed(s, weights{"create": 4, "get": 4, "list": 1, "del": 2, "next": 5, "mac": 2, "epin": 2, "edata": 2, "ddata": 2, "pair": 1}, mix{tasks: [2]int{1, 4}, ops: [2]int{2, 7}, devs: [2]int{1, 3}, rest: 80, net: 20, unreg: 50, faults: 20, bad: 25, unknown: 15, twins: 25, hostile: 10, damage: 5, odd: 8, bias: pickOf(r, "", "", "end", "atend")})
	case "C11":
		r.genMixed(s, weights{"pair": 10, "next": 1, "mac": 1, "epin": 1}, mix{tasks: [2]int{1, 4}, ops: [2]int{2, 8}, devs: [2]int{1, 3}, rest: 95, net: 35, ownNext: true, sameShape: 30})
	case "C12":
		r.genMixed(s, weights{"create": 2, "get": 3, "list": 2, "del": 1, "next": 4, "mac": 2, "epin": 2, "edata": 2, "pair": 1}, mix{tasks: [2]int{2, 6}, ops: [2]int{1, 5}, devs: [2]int{1, 3}, rest: 75, net: 20, stall: 35, unreg: 30})
	case "C13":
		r.genMixed(s, weights{"next": 4, "get": 2, "list": 1, "create": 2, "del": 1, "epin": 3, "mac": 4, "edata": 4, "ddata": 1, "pair": 3}, mix{tasks: [2]int{2, 5}, ops: [2]int{2, 6}, devs: [2]int{2, 4}, rest: 65, net: 15, origin: 60, unreg: 20, sameShape: 40, own: 50})
	default:
		panic("no generator for " + prop)
	}
	return s
}

var gens = map[string]func(string, uint64) *Spec{}

func fnvs(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type mix struct {
	tasks, ops, devs [2]int
	rest, net        int // percent
	bias             string
	twins, lit       int
	unreg            int // percent of devices not registered beforehand
	faults, bad      int
	hostile, scrib   int
	unknown, stall   int
	origin           int
	sameShape        int
	own              int
	oneTask          int
	damage           int // percent of requests whose bytes are altered on the way
	alias            int // percent of lookups under another spelling of an identity
	ownNext          bool
	odd              int // percent of AES devices whose key type does not fit
}

func (r *RNG) pct(p int) bool { return p > 0 && r.N(100) < p }

// genRare takes the place of a property's own generator once in a while:
// registries of many machines, crowds of stalled clients, and histories that
// are long in operations.
func (r *RNG) genRare(s *Spec) bool {
	var many, crowd, soak, tear, storm int // one run in so many
	switch s.Prop {
	case "C07", "C09", "C10", "C12", "C13":
		storm = 200
	}
	switch s.Prop {
	case "C01", "C02", "C04", "C05", "C06", "C08", "C10", "C13":
		tear = 6
	}
	switch s.Prop {
	case "C06":
		many, soak = 120, 300
	case "C01", "C02":
		soak = 250
	case "C04", "C08", "C13":
		many, soak = 250, 300
	case "C05", "C11":
		soak = 300
	case "C09", "C10":
		soak = 400
	case "C12":
		crowd, soak = 150, 400
	}
	switch {
	case many > 0 && r.P(1, many):
		r.genMany(s)
	case crowd > 0 && r.P(1, crowd):
		r.genCrowd(s)
	case soak > 0 && r.P(1, soak):
		r.genSoak(s)
	case storm > 0 && r.P(1, storm):
		r.genStorm(s)
	case tear > 0 && r.P(1, tear):
		r.genTear(s)
	default:
		return false
	}
	return true
}

// size picks a size of any order of magnitude up to max.
func (r *RNG) sizeTo(max int) int {
	n := 8
	for n < max && r.P(4, 5) {
		n *= 2
	}
	return min(max, r.In(n/2, n+n/4))
}

// genMany fills the registry.
func (r *RNG) genMany(s *Spec) {
	nd := r.sizeTo(1200)
	nt := r.In(1, 3)
	tasks := make([][]Op, nt)
	for i := 0; i < nd; i++ {
		d := r.dev("des", "")
		if r.P(1, 10) {
			d = r.dev("aes", "")
		} else if i > 0 && r.P(1, 3) {
			d = r.near(s.Devs[r.N(i)])
		}
		s.Devs = append(s.Devs, d)
		t := r.N(nt)
		tasks[t] = append(tasks[t], Op{K: "create", Dev: i, REST: r.P(1, 20)})
		if r.P(1, 12) {
			tasks[t] = append(tasks[t], Op{K: pickOf(r, "get", "next", "get", "del"), Dev: r.N(i + 1), REST: r.P(1, 4)})
		}
		if r.P(1, 1+nd/3) {
			tasks[t] = append(tasks[t], Op{K: "list", REST: r.P(1, 2)})
		}
	}
	for t := range tasks {
		for k := 0; k < 12; k++ {
			tasks[t] = append(tasks[t], Op{K: pickOf(r, "get", "next", "create", "mac"), Data: "x", Act: "request", Mac: "cmac", Dev: pickOf(r, r.N(nd), r.N(nd), k%nd)})
		}
		tasks[t] = append(tasks[t], Op{K: "list"})
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: tasks[t]})
	}
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolUniform, Gap: 3000}
	if r.P(1, 2) {
		s.Cfg.Policy = simrt.PolBlock
	}
}

// genTear has few clients meet at one machine, with the scheduler switching
// between them within single statements of the service.
func (r *RNG) genTear(s *Spec) {
	if r.P(1, 4) {
		r.genTurnover(s)
		return
	}
	d := r.dev("", pickOf(r, "", "carry", "end", "skip", "block"))
	d.Pre = r.P(4, 5)
	s.Devs = []Dev{d}
	if r.P(1, 3) {
		e := r.near(d)
		e.Pre = r.P(1, 2)
		s.Devs = append(s.Devs, e)
	}
	w := pickOf(r,
		weights{"next": 3, "get": 3, "list": 2},
		weights{"next": 3, "mac": 2, "edata": 2, "epin": 1},
		weights{"next": 2, "get": 2, "create": 2, "del": 1},
		weights{"create": 2, "get": 1, "list": 2, "del": 2})
	rest := r.P(1, 4)
	for t, nt := 0, r.In(2, 3); t < nt; t++ {
		k := r.weighted(w)
		var ops []Op
		for n := r.In(1, 3); n > 0; n-- {
			dev := r.N(len(s.Devs))
			o := r.crypto(k, dev, s.Devs[dev])
			switch k {
			case "next", "get", "list", "create", "del":
				o = Op{K: k, Dev: dev}
			}
			o.REST = rest && k != "del" && r.P(1, 2)
			ops = append(ops, o)
			if r.P(1, 4) {
				k = r.weighted(w)
			}
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolUniform, Gap: r.In(2, 8), Mask: pkgMask("/pkg/server")}
}

// genTurnover removes and registers again a machine that others are using.
func (r *RNG) genTurnover(s *Spec) {
	d := r.dev("", pickOf(r, "", "", "carry"))
	d.Pre = true
	s.Devs = []Dev{d, r.twin(d)}
	if r.P(1, 2) {
		s.Devs[1].KSN = d.KSN
	}
	use := pickOf(r, "next", "next", "next", "get", "mac")
	for t, nt := 0, r.In(2, 4); t < nt; t++ {
		var ops []Op
		for n := r.In(1, 3); n > 0; n-- {
			k := "next"
			if r.P(1, 3) {
				k = use
			}
			o := Op{K: k}
			if k == "mac" {
				o = r.crypto(k, 0, d)
			}
			ops = append(ops, o)
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	var ops []Op
	for n := pickOf(r, 1, 1, 2); n > 0; n-- {
		ops = append(ops, Op{K: "del"}, Op{K: "create", Dev: r.N(2)})
	}
	if r.P(1, 3) {
		ops = append(ops, Op{K: "next"})
	}
	s.Tasks = append(s.Tasks, Task{Name: "keeper", Ops: ops})
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolUniform, Gap: r.In(2, 8), Mask: pkgMask("/pkg/server")}
}

// genCrowd has many clients stall at once.
func (r *RNG) genCrowd(s *Spec) {
	n := r.sizeTo(1100)
	nd := r.In(1, 3)
	for i := 0; i < nd; i++ {
		d := r.dev("", "")
		d.Pre = true
		s.Devs = append(s.Devs, d)
	}
	how := r.N(4)
	for i := 0; i < n; i++ {
		dev := r.N(nd)
		o := r.crypto(pickOf(r, "mac", "epin", "edata", "get", "list", "next"), dev, s.Devs[dev])
		o.REST = true
		o.Net = &Net{}
		k := how
		if how == 3 {
			k = r.N(3)
		}
		switch k {
		case 0: // in the body
			if o.K == "get" || o.K == "list" || o.K == "next" {
				o = r.crypto("mac", dev, s.Devs[dev])
				o.REST = true
			}
			o.Net = &Net{StallAt: len((&world{}).buildRequest(o, "0123456789abcdef", "r")) - 3, StallFor: 35 * sec, Chunk: 40}
		case 1:
			o.Net = &Net{RStall: int64(r.In(20, 29)) * sec}
		case 2:
			o.Net = &Net{StallAt: r.In(1, 200), StallFor: int64(r.In(15, 35)) * sec, Chunk: r.In(10, 80)}
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("slow%d", i), Ops: []Op{o}})
	}
	for t, nt := 0, r.In(1, 4); t < nt; t++ {
		var ops []Op
		for k := r.In(2, 7); k > 0; k-- {
			dev := r.N(nd)
			o := r.crypto(pickOf(r, "mac", "epin", "edata", "get", "list", "next", "create"), dev, s.Devs[dev])
			o.REST = r.P(3, 4)
			o.Think = int64(r.In(0, 3000)) * 1_000_000
			ops = append(ops, o)
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolUniform, Gap: 2000}
}

// genSoak is a long history of few clients, over days of simulated time.
func (r *RNG) genSoak(s *Spec) {
	nd := r.In(1, 3)
	for i := 0; i < nd; i++ {
		d := r.dev("", pickOf(r, "zero", "skip", "carry", "rand", "bit", "block", "block"))
		d.Pre = true
		s.Devs = append(s.Devs, d)
	}
	n := r.sizeTo(1600)
	nt := r.In(1, 2)
	w := pickOf(r,
		weights{"next": 10, "get": 1},
		weights{"mac": 3, "epin": 3, "edata": 3, "ddata": 1, "pair": 2, "next": 1},
		weights{"get": 4, "next": 4, "list": 1, "mac": 2, "create": 2, "del": 1})
	if s.Prop == "C11" {
		w = weights{"pair": 10, "mac": 1}
	}
	pause := r.pct(50)
	for t := 0; t < nt; t++ {
		var ops []Op
		for len(ops) < n/nt {
			dev := r.N(nd)
			k := r.weighted(w)
			rest := r.P(2, 5)
			switch k {
			case "pair":
				ops = r.pair(ops, dev, s.Devs[dev], rest || s.Prop == "C11")
			case "next", "get", "list", "create":
				ops = append(ops, Op{K: k, Dev: dev, REST: rest})
			case "del":
				ops = append(ops, Op{K: k, Dev: dev})
			default:
				o := r.crypto(k, dev, s.Devs[dev])
				o.REST = rest
				ops = append(ops, o)
			}
			if pause && r.P(1, 40) {
				ops[len(ops)-1].Think = r.pause()
			}
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolBlock}
	if nt > 1 && r.P(1, 2) {
		s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolUniform, Gap: 2000}
	}
}

// pause is a time in which nothing happens: seconds to years.
func (r *RNG) pause() int64 {
	d := pickOf(r, sec, 10*sec, 60*sec, 600*sec, 3600*sec, 86400*sec, 7*86400*sec, 31*86400*sec, 400*86400*sec)
	return d + int64(r.U()%uint64(d))
}

// genStorm repeats one kind of failing request many times, with ordinary
// requests in between: whatever a failure leaks adds up.
func (r *RNG) genStorm(s *Spec) {
	nd := r.In(1, 2)
	for i := 0; i < nd; i++ {
		d := r.dev("", pickOf(r, "", "", "atend"))
		d.Pre = true
		s.Devs = append(s.Devs, d)
	}
	n := r.sizeTo(500)
	nt := r.In(1, 3)
	kinds := []string{"create", "get", "next", "epin", "dpin", "mac", "edata", "ddata"}
	if r.P(2, 3) {
		i := r.N(len(kinds))
		kinds = kinds[i : i+1]
	}
	how := r.N(8)
	for t := 0; t < nt; t++ {
		var ops []Op
		for len(ops) < n/nt {
			dev := r.N(nd)
			k := kinds[r.N(len(kinds))]
			o := Op{K: k, Dev: dev}
			if k != "create" && k != "get" && k != "next" {
				o = r.crypto(k, dev, s.Devs[dev])
			}
			o.REST = how != 4 || r.P(1, 2)
			h := how
			if h == 7 {
				h = r.N(6)
			}
			switch h {
			case 0:
				r.spoil(s, &o)
			case 1:
				o = Op{K: "raw", Dev: dev, Raw: r.hostile(s, dev)}
			case 2:
				r.damage(&o)
			case 3:
				o.Net = &Net{Cut: r.In(1, 260)}
			case 4:
				switch k {
				case "create":
					o.Fault = pickOf(r, "store", "find")
				default:
					o.Fault = "find"
				}
			case 5:
				o.Net = &Net{RDie: true}
			case 6:
				if k != "create" {
					o.Raw = r.hex(16)
				}
			}
			ops = append(ops, o)
			if r.P(1, 25) {
				o = r.crypto(pickOf(r, "mac", "edata", "epin"), dev, s.Devs[dev])
				o.REST = r.P(3, 4)
				ops = append(ops, o)
			}
		}
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolBlock}
	if nt > 1 && r.P(1, 2) {
		s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolUniform, Gap: 1000}
	}
}

// genLong is one caller walking a machine over many steps.
func (r *RNG) genLong(s *Spec) {
	alg := pickOf(r, "des", "des", "aes")
	d := r.dev(alg, pickOf(r, "zero", "skip", "carry", "carry", "bit", "block", "block", "rand", "end"))
	d.Pre = true
	s.Devs = []Dev{d}
	n := r.In(20, 70)
	var ops []Op
	rest := r.P(1, 4)
	for i := 0; i < n; i++ {
		ops = append(ops, Op{K: "next", REST: rest && r.P(1, 3)})
		if r.P(1, 9) {
			ops = append(ops, Op{K: "get"})
		}
		if r.P(1, 15) {
			ops = append(ops, r.crypto(pickOf(r, "mac", "edata"), 0, d))
		}
	}
	s.Tasks = []Task{{Name: "caller", Ops: ops}}
	s.Cfg = simrt.Config{Seed: s.Seed, Policy: simrt.PolBlock}
}

func (r *RNG) genMixed(s *Spec, w weights, m mix) {
	nd := r.In(m.devs[0], m.devs[1])
	var first Dev
	for i := 0; i < nd; i++ {
		var d Dev
		switch {
		case i > 0 && r.pct(m.twins):
			d = r.twin(s.Devs[0])
		case i > 0 && r.pct(m.sameShape):
			// same device identifier under another base key, or the same base
			// key with another identifier: easiest to confuse
			d = first
			if r.P(2, 5) {
				d = r.near(first)
			} else if r.P(1, 2) {
				d.BDK = r.hex(len(d.BDK) / 2)
			} else {
				x := r.dev(d.Alg, m.bias)
				for x.Type != d.Type && d.Alg == "aes" {
					x = r.dev(d.Alg, m.bias)
				}
				d.KSN = x.KSN
			}
		default:
			d = r.dev("", m.bias)
		}
		if d.Alg == "aes" && r.pct(m.odd) {
			d.Type = pickOf(r, "AES128", "AES192", "AES256", "AES512", "aes128", "HMAC128", "x")
		}
		d.Pre = !r.pct(m.unreg)
		if i == 0 {
			first = d
		}
		s.Devs = append(s.Devs, d)
	}
	nt := r.In(m.tasks[0], m.tasks[1])
	if r.pct(m.oneTask) {
		nt = 1
	}
	ownDev := r.pct(m.own)
	pauses := r.P(1, 12)
	total := 0
	for t := 0; t < nt; t++ {
		var ops []Op
		n := r.In(m.ops[0], m.ops[1])
		for len(ops) < n {
			dev := r.N(nd)
			if ownDev {
				dev = t % nd
			}
			k := r.weighted(w)
			if m.ownNext && k == "next" && t > 0 {
				k = "mac"
			}
			rest := r.pct(m.rest)
			before := len(ops)
			switch k {
			case "pair":
				ops = r.pair(ops, dev, s.Devs[dev], rest)
			case "next", "get", "list":
				ops = append(ops, Op{K: k, Dev: dev, REST: rest})
			case "del":
				ops = append(ops, Op{K: k, Dev: dev}) // not offered over REST
			case "create":
				o := Op{K: k, Dev: dev, REST: rest}
				if !rest && r.pct(m.lit) {
					o.N = 1
				}
				ops = append(ops, o)
			default:
				o := r.crypto(k, dev, s.Devs[dev])
				o.REST = rest
				ops = append(ops, o)
			}
			for i := before; i < len(ops); i++ {
				o := &ops[i]
				if o.REST && o.Net == nil {
					if r.pct(m.net) {
						o.Net = r.net(false)
					} else if r.P(1, 3) {
						o.Net = r.net(true)
					}
				}
				if r.P(1, 5) {
					o.Think = int64(r.In(0, 3000)) * 1000
				}
				if pauses && r.P(1, 3) {
					o.Think = r.pause()
				}
				if m.origin > 0 && r.pct(m.origin) && o.REST {
					if o.Net == nil {
						o.Net = &Net{}
					}
					o.Net.Origin = fmt.Sprintf("https://t%d-%d.%s", t, i, pickOf(r, "example", "example", "a-rather-long-name-of-an-origin.example", "x"))
				}
				if r.pct(m.faults) {
					switch o.K {
					case "create":
						o.Fault = pickOf(r, "store", "store", "find")
					case "del":
						o.Fault = "delete"
					case "epin":
						o.Fault = pickOf(r, "find", "entropy", "entropy")
						if o.Fault == "entropy" {
							if s.Devs[o.Dev].Alg == "aes" || !ref.RandomFill(fm(o.Fmt)) {
								o.Fault = "find"
							}
						}
					case "list":
					default:
						o.Fault = "find"
					}
				}
				if r.pct(m.alias) && (o.K == "get" || o.K == "del" || o.K == "mac") {
					if rd, err := newRef(s.Devs[o.Dev]); err == nil {
						x := rd.IKHex()
						o.Raw = pickOf(r, strings.ToUpper(x), strings.ToUpper(x), " "+x, x+" ", "0x"+x, x[:len(x)-2], x+"00")
						if k := pickOf(r, "get", "del", ""); k != "" && o.K != "mac" && r.P(1, 2) {
							p := *o
							p.K, p.REST, p.Net = "del", false, nil
							if k == "del" {
								ops = append(ops, Op{K: "get", Dev: p.Dev, Raw: p.Raw})
							}
							ops[i] = p
							break
						}
					}
				}
				if r.pct(m.unknown) && o.K != "create" && o.K != "list" {
					o.Raw = pickOf(r, r.hex(16), "unknown", "%00", r.hex(24))
				}
				if m.stall > 0 && r.pct(m.stall) && o.REST {
					if o.Net == nil {
						o.Net = &Net{}
					}
					n := o.Net
					n.Cut, n.DropReq = 0, false
					switch r.N(3) {
					case 0:
						n.StallAt = r.In(1, 260)
						n.StallFor = int64(r.In(10, 28)) * sec
						n.Chunk = r.In(10, 80)
					case 1:
						n.RStall = int64(r.In(10, 29)) * sec
					case 2:
						n.StallAt = r.In(1, 200)
						n.StallFor = 31 * sec
						n.Chunk = r.In(10, 60)
					}
				}
			}
			if r.pct(m.bad) && len(ops) > 0 {
				r.spoil(s, &ops[len(ops)-1])
			}
			if o := &ops[len(ops)-1]; o.REST && r.pct(m.damage) {
				r.damage(o)
			}
			if r.pct(m.hostile) {
				ops = append(ops, Op{K: "raw", Dev: dev, Raw: r.hostile(s, dev), Net: r.net(r.P(1, 2))})
			}
			if m.scrib > 0 && r.pct(m.scrib) {
				o := ops[len(ops)-1]
				if !o.REST && (o.K == "create" || o.K == "get" || o.K == "list" || o.K == "next") {
					switch {
					case o.K == "create" && r.P(1, 2):
						ops = append(ops, Op{K: pickOf(r, "scribin", "scribin"), Ref: len(ops), N: r.N(4)})
					case (o.K != "list") && r.P(1, 2):
						// submit the same object again
						if r.P(1, 2) {
							ops = append(ops, Op{K: "next", Dev: o.Dev})
							ops = append(ops, Op{K: "create", Dev: o.Dev, N: 2, Ref: len(ops) - 1})
						} else {
							ops = append(ops, Op{K: "create", Dev: o.Dev, N: 2, Ref: len(ops)})
						}
					default:
						ops = append(ops, Op{K: "scrib", Ref: len(ops), N: r.N(4)})
					}
				}
			}
		}
		total += len(ops)
		s.Tasks = append(s.Tasks, Task{Name: fmt.Sprintf("client%d", t), Ops: ops})
	}
	s.Cfg = r.cfg(s.Seed, total*1500)
}

func fm(f string) string {
	if f == "" {
		return "ISO-0"
	}
	return f
}

// spoil makes an operation invalid.
func (r *RNG) spoil(s *Spec, o *Op) {
	o.Ref = 0
	switch o.K {
	case "create":
		d := s.Devs[o.Dev]
		d.Pre = false
		switch r.N(11) {
		case 9:
			d.BDK = r.notHex(d.BDK)
		case 10:
			d.KSN = r.notHex(d.KSN)
		case 0:
			d.Alg = pickOf(r, "", "rsa", "DES", "3des")
		case 1:
			d.BDK = pickOf(r, "", "zz", d.BDK[:len(d.BDK)-2], d.BDK+"00", d.BDK[:len(d.BDK)-1]+"g", d.BDK[:15], r.hex(15), r.hex(33))
		case 2:
			d.KSN = ""
		case 3:
			d.KSN = d.KSN[:2*r.N(len(d.KSN)/2)]
		case 4:
			d.KSN = d.KSN + r.hex(r.In(1, 20))
		case 5:
			d.KSN = d.KSN[:len(d.KSN)-1]
		case 6:
			d.KSN = "xyz" + d.KSN[3:]
		case 7:
			d.Alg = map[string]string{"aes": "des", "des": "aes"}[d.Alg]
		case 8:
			d.KSN, d.BDK = d.BDK, d.KSN
		}
		s.Devs = append(s.Devs, d)
		o.Dev = len(s.Devs) - 1
	case "epin":
		switch r.N(6) {
		case 0:
			o.Pin = pickOf(r, "", "1", "12", "123", "12a4", "abcd", r.digits(13), r.digits(40), "１２３４", "12 4", "-123")
		case 1:
			o.Pan = pickOf(r, "", "1", r.digits(11), r.digits(12), r.digits(20), r.digits(60), "4111x1111111111", "abcdefghijklm")
		case 2:
			o.Fmt = pickOf(r, "ISO-4", "ISO-9", "foo", "iso0", " ")
		case 3:
			o.Pin, o.Pan = "", ""
		case 4:
			o.Pin = r.text(r.In(1, 20))
		case 5:
			o.Pan = r.text(r.In(1, 20))
		}
	case "dpin":
		switch r.N(6) {
		case 5:
			o.Data = r.notHex(r.hex(pickOf(r, 8, 16)))
		case 0:
			o.Data = pickOf(r, "", "0", "zz", r.hex(1), r.hex(7), r.hex(9), r.hex(15), r.hex(17), r.hex(64))
		case 1:
			o.Pan = pickOf(r, "", "1", r.digits(11), r.digits(12), r.digits(20), "4111x1111111111")
		case 2:
			o.Fmt = pickOf(r, "ISO-4", "ISO-9", "foo")
		case 3:
			o.Data = r.text(16)
		}
	case "mac":
		switch r.N(3) {
		case 0:
			o.Mac = pickOf(r, "", "CMAC", "md5")
		case 1:
			o.Data = ""
		case 2:
			o.Act = pickOf(r, "reply", "REQUEST", "x")
		}
	case "edata":
		switch r.N(5) {
		case 4:
			o.IV = r.notHex(r.hex(pickOf(r, 8, 16, 8, 16, r.In(9, 40))))
		case 0:
			o.IV = pickOf(r, "z", "zz", "0", r.hex(7), r.hex(9), r.hex(17), r.hex(33), r.hex(100))
		case 1:
			o.Data = ""
		case 2:
			o.IV = r.hex(r.In(1, 40))
		case 3:
			o.Act = pickOf(r, "reply", "x")
		}
	case "ddata":
		switch r.N(6) {
		case 4:
			o.IV = r.notHex(r.hex(pickOf(r, 8, 16, 8, 16, r.In(9, 40))))
		case 5:
			o.Data = r.notHex(r.hex(pickOf(r, 8, 16, 32)))
		case 0:
			o.IV = pickOf(r, "z", "zz", "0", r.hex(7), r.hex(9), r.hex(17), r.hex(33), r.hex(100))
		case 1:
			o.Data = pickOf(r, "", "0", "zz", r.hex(1), r.hex(7), r.hex(9), r.hex(17), r.hex(31))
		case 2:
			o.IV = r.hex(r.In(1, 40))
		case 3:
			o.Data = r.text(r.In(1, 40))
		}
	default:
		if o.K != "list" {
			o.Raw = pickOf(r, "x", r.hex(16), "%", strings.Repeat("a", 3000), r.text(r.In(1, 40)), r.hex(r.In(1, 30)), string(rune(r.In(1, 255))))
		}
	}
}

// oddBody is a JSON object of the expected fields, some of them not as they should be.
func (r *RNG) oddBody(d Dev) string {
	bl := 8
	if d.Alg == "aes" {
		bl = 16
	}
	var kv [][2]string
	add := func(k, v string) {
		b, _ := json.Marshal(v)
		kv = append(kv, [2]string{k, string(b)})
	}
	switch r.N(5) {
	case 0:
		add("Algorithm", d.Alg)
		add("AlgorithmKey", d.Type)
		add("BaseDerivativeKey", d.BDK)
		add("KeySerialNumber", d.KSN)
	case 1:
		add("Pin", r.pin())
		add("Pan", r.pan())
		add("Format", r.format())
	case 2:
		add("Encrypted", r.hex(bl))
		add("Pan", r.pan())
		add("Format", r.format())
	default:
		add("Data", pickOf(r, r.hex(bl), r.hex(3*bl), r.data()))
		add("Action", r.act())
		add("Iv", r.hex(bl))
		add("MacType", pickOf(r, "cmac", "hmac"))
	}
	odd := func() string {
		return pickOf(r, "null", "0", "-1", "1e400", "true", "[]", "{}", "[null]", "\"\"", "\"\\u0000\"", "\"\\ud83d\"", "12345678901234567890123", "\""+strings.Repeat("9", r.In(1, 3000))+"\"", "{\"a\":{\"b\":[1]}}", "\""+r.hex(r.In(1, 60))+"\"", "\""+r.digits(r.In(1, 60))+"\"", "\"\xff\"")
	}
	for n := r.In(0, 2); n > 0; n-- {
		i := r.N(len(kv))
		switch r.N(6) {
		case 0:
			kv[i][1] = odd()
		case 1:
			kv = append(kv[:i], kv[i+1:]...)
		case 2:
			kv = append(kv, [2]string{kv[i][0], odd()}) // twice
		case 3:
			kv[i][0] = pickOf(r, strings.ToLower(kv[i][0]), strings.ToUpper(kv[i][0]), kv[i][0]+" ")
		case 4:
			kv = append(kv, [2]string{pickOf(r, "x", "", "error", "InitialKey", "CurrentKSN", "TransactionKey", "CreatedAt", "ik"), odd()})
		case 5:
			kv[i][1] = odd()
		}
		if len(kv) == 0 {
			break
		}
	}
	var b strings.Builder
	b.WriteString("{")
	for i, x := range kv {
		if i > 0 {
			b.WriteString(",")
		}
		k, _ := json.Marshal(x[0])
		fmt.Fprintf(&b, "%s:%s", k, x[1])
	}
	b.WriteString("}")
	out := b.String()
	switch r.N(8) {
	case 0:
		out = out[:r.N(len(out))]
	case 1:
		out += pickOf(r, " ", "\n", "x", "{}", ",", "]")
	case 2:
		i := r.N(len(out))
		out = out[:i] + string(rune(r.In(1, 255))) + out[i+1:]
	}
	return out
}

// hostile makes raw request bytes.
// oddHeader is a header that means nothing to the service, or too much.
func (r *RNG) oddHeader() string {
	k := pickOf(r, "Origin", "Origin", "Origin", "X-Request-ID", "X-Request-Id", "Content-Type", "Accept", "Accept-Encoding", "Authorization", "Referer", "User-Agent", "X-Forwarded-For", "Cookie", "If-None-Match", "Range", "Expect", "X-User-Id", "X-Idempotency-Key")
	v := pickOf(r, "null", "", "*", "://", "https://", "http://a", "a://b://c", "https://[::1", "%", "%zz", ":", "/", ",", ";", "=", "\"", "\\", "-1", "0", "bytes=0-0", "bytes=5-", "99999999999999999999", "\xff\xfe", "a, b", "Bearer", "Bearer ", "application/json; charset", "100-continue", strings.Repeat("x", 3000), strings.Repeat("a,", 500), r.hex(16))
	return k + ": " + v + "\r\n"
}

func (r *RNG) hostile(s *Spec, dev int) string {
	paths := []string{"/machine", "/machine/{IK}", "/machines", "/generate_ksn/{IK}", "/encrypt_pin/{IK}", "/decrypt_pin/{IK}", "/generate_mac/{IK}", "/encrypt_data/{IK}", "/decrypt_data/{IK}", "/ping", "/", "/nope", "/machine/", "//machine", "/machine/a/b", "/machine/%zz", "/machine/%2F", "/encrypt_pin/", "*"}
	method := pickOf(r, "POST", "POST", "POST", "GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "FOO", "")
	path := paths[r.N(len(paths))]
	if r.P(1, 4) { // another identity
		id := url.PathEscape(r.text(r.In(1, 5)))
		if r.P(1, 2) {
			id = r.hex(20)[:r.In(1, 40)]
		} else if r.P(1, 3) {
			id = string(rune(r.In(0x21, 0x7e)))
		}
		path = pickOf(r, "/machine/", "/generate_ksn/", "/encrypt_pin/", "/decrypt_pin/", "/generate_mac/", "/encrypt_data/", "/decrypt_data/") + id
		if strings.HasPrefix(path, "/machine/") && r.P(2, 3) {
			method = "GET"
		}
	}
	bodies := []string{
		"", "null", "[]", "{}", "0", "\"x\"", "true", "{", "}", "{\"Pin\":", "[1,2", "{\"Pin\":1234}", "{\"Pin\":null,\"Pan\":[]}",
		"{\"Pin\":\"1234\",\"Pan\":\"4111111111111111\",\"Format\":{}}", "{\"Encrypted\":5}", "{\"Data\":[\"a\"],\"Action\":\"request\"}",
		"{\"Data\":\"" + strings.Repeat("A", 20000) + "\",\"Action\":\"request\",\"MacType\":\"cmac\"}",
		"{\"Iv\":\"" + strings.Repeat("0", 5000) + "\",\"Data\":\"abc\"}",
		"{\"Iv\":\"zz\",\"Data\":\"abc\"}", "{\"Iv\":\"00\",\"Data\":\"00\"}", "{\"Data\":\"\"}",
		"{\"Algorithm\":\"des\"}", "{\"Algorithm\":\"aes\",\"BaseDerivativeKey\":\"00\",\"KeySerialNumber\":\"00\"}",
		"{\"Algorithm\":\"des\",\"BaseDerivativeKey\":\"0123456789ABCDEFFEDCBA9876543210\",\"KeySerialNumber\":\"\"}",
		"{\"Algorithm\":\"aes\",\"BaseDerivativeKey\":\"FEDCBA9876543210F1F1F1F1F1F1F1F1\",\"KeySerialNumber\":\"12\"}",
		"{\"Algorithm\":\"des\",\"BaseDerivativeKey\":\"0123456789ABCDEFFEDCBA9876543210\",\"KeySerialNumber\":\"FF\"}",
		"{\"Algorithm\":7}", "{\"a\":" + strings.Repeat("[", 12000) + "}", "\xff\xfe\x00", "{\"Pin\":\"\\ud800\"}", "{\"Pin\":\"1234\"}{\"Pin\":\"1234\"}",
		"{\"Encrypted\":\"" + r.hex(8) + "\",\"Pan\":\"" + r.pan() + "\",\"Format\":\"" + r.format() + "\"}",
		"{\"Encrypted\":\"" + r.hex(8) + "\",\"Pan\":\"\",\"Format\":\"ISO-0\"}",
		"{\"Encrypted\":\"" + r.hex(r.In(1, 20)) + "\",\"Pan\":\"4111\",\"Format\":\"" + r.format() + "\"}",
	}
	body := bodies[r.N(len(bodies))]
	if r.P(1, 2) {
		body = r.oddBody(s.Devs[dev])
	}
	hdr := "Host: x\r\n"
	switch r.N(10) {
	case 0:
		hdr += fmt.Sprintf("Content-Length: %d\r\n", len(body)+r.In(1, 50)) // claims more than it sends
	case 1:
		hdr += "Transfer-Encoding: chunked\r\n"
		body = pickOf(r, fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(body), body), "zz\r\n", "ffffffffffffffff\r\nabc", "5\r\nab")
	case 2:
		hdr += "Content-Length: -1\r\n"
	case 3:
		hdr += fmt.Sprintf("Content-Length: %d\r\n", len(body)/2)
	case 4:
		hdr += "Content-Type: application/json\r\nOrigin: \x01\r\n" + fmt.Sprintf("Content-Length: %d\r\n", len(body))
	case 5:
		hdr += "Content-Length: " + pickOf(r, "4611686018427387904", "9223372036854775807", "18446744073709551616", "0x10", "+5", "1, 1", "") + "\r\n"
	default:
		hdr += fmt.Sprintf("Content-Type: application/json\r\nContent-Length: %d\r\n", len(body))
	}
	if r.P(1, 3) {
		hdr += r.oddHeader()
	}
	line := method + " " + path + " HTTP/1.1\r\n"
	if r.P(1, 20) {
		line = pickOf(r, "GARBAGE\r\n", method+" "+path+"\r\n", method+" "+path+" HTTP/9.9\r\n", "\x00\x01\x02\r\n", strings.Repeat("A", 5000)+"\r\n")
	}
	return line + hdr + "\r\n" + body
}
