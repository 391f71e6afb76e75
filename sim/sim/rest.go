package sim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/gorilla/mux"
	"github.com/moov-io/dukpt/pkg/server"

	"verif/simrt"
)

type handler = http.Handler

const sec = int64(1_000_000_000)

// ---- the simulated connection ----------------------------------------------

type segment struct {
	at int64
	b  []byte
}

type simConn struct {
	segs     []segment
	reset    bool  // after the last segment the connection breaks
	deadline int64 // read deadline
	lastAt   int64
	stall    bool // after the last segment nothing comes any more
	dies     bool // not everything will arrive
}

type connErr string

func (e connErr) Error() string   { return string(e) }
func (e connErr) Timeout() bool   { return e == "i/o timeout" }
func (e connErr) Temporary() bool { return false }

func (c *simConn) Read(p []byte) (int, error) {
	for {
		if len(c.segs) == 0 {
			if c.stall {
				simrt.Sleep(c.deadline - simrt.Now())
				return 0, connErr("i/o timeout")
			}
			if c.reset {
				return 0, connErr("connection reset by peer")
			}
			return 0, io.EOF
		}
		s := &c.segs[0]
		if s.at > simrt.Now() {
			at := s.at
			if at > c.deadline {
				at = c.deadline
			}
			simrt.Sleep(at - simrt.Now())
			if simrt.Now() < s.at {
				c.lastAt = simrt.Now()
				return 0, connErr("i/o timeout")
			}
		}
		if s.at > c.lastAt {
			c.lastAt = s.at
		}
		n := copy(p, s.b)
		s.b = s.b[n:]
		if len(s.b) == 0 {
			c.segs = c.segs[1:]
		}
		if n > 0 {
			return n, nil
		}
		if len(p) == 0 {
			return 0, nil
		}
	}
}

// deliver turns raw bytes and a fate into a connection starting now.
func deliver(raw []byte, n *Net, res *RunResult) (*simConn, []byte) {
	c := &simConn{deadline: simrt.Now() + 30*sec, lastAt: simrt.Now()}
	b := append([]byte(nil), raw...)
	if n == nil {
		n = &Net{}
	}
	for _, p := range n.Flip {
		if len(b) > 0 {
			i := p % len(b)
			b[i] ^= byte(1 << uint(p/1009%7))
			if b[i] == 0 {
				b[i] = 1
			}
			res.Faults["byte corrupted"]++
		}
	}
	if n.Cut > 0 && n.Cut < len(b) {
		b = b[:n.Cut]
		c.reset = true
		res.Faults["connection dies mid-request"]++
	}
	at := simrt.Now()
	ch := n.Chunk
	if ch <= 0 {
		ch = len(b)
		if ch == 0 {
			ch = 1
		}
	}
	stalled := false
	keep := -1
	for off := 0; off < len(b); off += ch {
		e := off + ch
		if e > len(b) {
			e = len(b)
		}
		if n.StallFor > 0 && !stalled && e > n.StallAt {
			stalled = true
			at += n.StallFor
			res.Faults["client stalls while sending"]++
		}
		if at > c.deadline && !c.dies {
			c.dies = true
			res.Faults["client exceeds the read timeout"]++
			b = append([]byte(nil), b...)
			keep = off
		}
		c.segs = append(c.segs, segment{at, append([]byte(nil), b[off:e]...)})
		at += n.Pace
	}
	if keep >= 0 {
		b = b[:keep]
	}
	c.dies = c.dies || c.reset
	return c, b
}

// ---- response capture ------------------------------------------------------

type capture struct {
	hdr      http.Header
	sent     http.Header
	code     int
	body     bytes.Buffer
	n        *Net
	first    int64
	stalled  int64
	wroteHdr bool
	twice    bool
	w        *world
	dead     bool // the client has gone
	failed   bool // a write failed, nothing more reaches the client
}

func (c *capture) Header() http.Header { return c.hdr }

func (c *capture) WriteHeader(code int) {
	if c.wroteHdr {
		c.twice = true
		return
	}
	if code >= 100 && code < 200 && code != 101 {
		return
	}
	c.wroteHdr = true
	c.code = code
	c.sent = c.hdr.Clone()
	c.first = simrt.Now()
}

func (c *capture) Write(p []byte) (int, error) {
	if !c.wroteHdr {
		c.WriteHeader(200)
	}
	if c.failed {
		return 0, connErr("broken pipe")
	}
	if c.n != nil && c.n.RStall > 0 && c.stalled == 0 {
		c.w.res.Faults["client stalls while reading"]++
		d := c.n.RStall
		if d > 30*sec {
			d = 30 * sec
		}
		c.stalled = d
		simrt.Sleep(d)
		if c.n.RStall > 30*sec {
			c.failed = true
			return 0, connErr("i/o timeout")
		}
	}
	// what fits the server's write buffer is accepted even for a dead client
	if c.dead && c.body.Len()+len(p) > 4096 {
		c.failed = true
		return 0, connErr("broken pipe")
	}
	c.body.Write(p)
	return len(p), nil
}

func (c *capture) Flush() {}

// ---- interpreting delivered bytes ------------------------------------------

var routes = func() *mux.Router {
	r := mux.NewRouter()
	nop := http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})
	r.Methods("OPTIONS").Handler(nop).Name("options")
	r.Methods("GET").Path("/ping").Handler(nop).Name("ping")
	r.Methods("GET").Path("/machines").Handler(nop).Name("list")
	r.Methods("GET").Path("/machine/{ik}").Handler(nop).Name("get")
	r.Methods("POST").Path("/machine").Handler(nop).Name("create")
	r.Methods("POST").Path("/generate_ksn/{ik}").Handler(nop).Name("next")
	r.Methods("POST").Path("/encrypt_pin/{ik}").Handler(nop).Name("epin")
	r.Methods("POST").Path("/decrypt_pin/{ik}").Handler(nop).Name("dpin")
	r.Methods("POST").Path("/generate_mac/{ik}").Handler(nop).Name("mac")
	r.Methods("POST").Path("/encrypt_data/{ik}").Handler(nop).Name("edata")
	r.Methods("POST").Path("/decrypt_data/{ik}").Handler(nop).Name("ddata")
	return r
}()

type eff struct {
	parsed bool   // the server sees a request at all
	kind   string // "" when no operation is addressed
	bad    bool   // operation addressed with an unreadable body
	ik     string
	a      Op
	reg    Dev
	origin string
	line   string
	lax    bool // the request may be refused
}

type epinBody struct{ Pin, Pan, Format string }
type dpinBody struct{ Encrypted, Pan, Format string }
type macBody struct{ Action, Data, MacType string }
type dataBody struct{ Action, Data, Iv string }

var bodyFields = map[string][]string{
	"create": {"Algorithm", "AlgorithmKey", "BaseDerivativeKey", "KeySerialNumber"},
	"epin":   {"Pin", "Pan", "Format"},
	"dpin":   {"Encrypted", "Pan", "Format"},
	"mac":    {"Action", "Data", "MacType"},
	"edata":  {"Action", "Data", "Iv"},
	"ddata":  {"Action", "Data", "Iv"},
}

// plainBody tells whether a body is an object of the documented fields, each
// at most once and a string. Others may be refused.
func plainBody(kind string, body []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(body))
	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
		return false
	}
	seen := map[string]bool{}
	for dec.More() {
		t, err := dec.Token()
		k, ok := t.(string)
		if err != nil || !ok || seen[k] || !slices.Contains(bodyFields[kind], k) {
			return false
		}
		seen[k] = true
		if t, err = dec.Token(); err != nil {
			return false
		}
		if v, ok := t.(string); !ok || strings.ContainsRune(v, '\ufffd') || strings.ContainsRune(v, 0) {
			return false
		}
	}
	return true
}

// interpret reads the bytes the way the documented interface means them.
func interpret(b []byte, dies bool) (e eff) {
	var rd io.Reader = bytes.NewReader(b)
	if dies {
		rd = io.MultiReader(rd, errReader{})
	}
	r, err := http.ReadRequest(bufio.NewReader(rd))
	if err != nil {
		return
	}
	e.parsed = true
	e.origin = r.Header.Get("Origin")
	e.line = r.Method + " " + r.URL.Path
	var m mux.RouteMatch
	if !routes.Match(r, &m) || m.MatchErr != nil || m.Route == nil {
		return
	}
	e.kind = m.Route.GetName()
	if p := r.URL.Path; e.kind != "options" && p != cleanPath(p) {
		e.kind = ""
		return
	}
	e.ik = m.Vars["ik"]
	var dst any
	var ep epinBody
	var dp dpinBody
	var mb macBody
	var db dataBody
	var bk server.BaseKey
	switch e.kind {
	case "create":
		dst = &bk
	case "epin":
		dst = &ep
	case "dpin":
		dst = &dp
	case "mac":
		dst = &mb
	case "edata", "ddata":
		dst = &db
	default:
		return
	}
	body, err := io.ReadAll(r.Body)
	if err != nil {
		e.bad = true
		return
	}
	if err := json.Unmarshal(body, dst); err != nil {
		e.bad = true
		return
	}
	e.reg = Dev{Alg: bk.Algorithm, Type: bk.AlgorithmKey, BDK: bk.BaseDerivativeKey, KSN: bk.KeySerialNumber}
	e.lax = !plainBody(e.kind, body)
	e.a = Op{K: e.kind, REST: true, Pin: ep.Pin, Pan: ep.Pan + dp.Pan, Fmt: ep.Format + dp.Format, Act: mb.Action + db.Action, IV: db.Iv, Mac: mb.MacType, Data: mb.Data + db.Data + dp.Encrypted}
	return
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, connErr("connection reset by peer") }

func cleanPath(p string) string {
	u := url.URL{Path: p}
	q := u.Path
	if q == "" {
		return "/"
	}
	if q[0] != '/' {
		q = "/" + q
	}
	for strings.Contains(q, "//") {
		q = strings.ReplaceAll(q, "//", "/")
	}
	if strings.Contains(q, "/./") || strings.Contains(q, "/../") || strings.HasSuffix(q, "/..") || strings.HasSuffix(q, "/.") {
		return ""
	}
	return q
}

// ---- building requests ------------------------------------------------------

func jsonBody(kv ...string) string {
	m := map[string]string{}
	var h uint64
	for _, v := range kv {
		h = h*31 + fnvs(v)
	}
	for i := 0; i+1 < len(kv); i += 2 {
		if kv[i+1] == "" && h>>9&1 == 0 {
			continue // an absent field means the same as an empty one
		}
		m[kv[i]] = kv[i+1]
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func rawRequest(method, path, body, origin, reqID string) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: dukpt.test\r\n", method, path)
	if origin != "" {
		fmt.Fprintf(&b, "Origin: %s\r\n", origin)
	}
	if reqID != "" {
		fmt.Fprintf(&b, "X-Request-ID: %s\r\n", reqID)
	}
	if body != "" || method == "POST" {
		fmt.Fprintf(&b, "Content-Type: application/json\r\nContent-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n")
	b.WriteString(body)
	return []byte(b.String())
}

func (w *world) buildRequest(o Op, ik string, id string) []byte {
	origin := ""
	if o.Net != nil {
		origin = o.Net.Origin
	}
	p := url.PathEscape(ik)
	switch o.K {
	case "raw":
		raw := strings.ReplaceAll(o.Raw, "{IK}", w.ikOf(o))
		if raw == "" {
			raw = "\r\n"
		}
		return []byte(raw)
	case "ping":
		return rawRequest("GET", "/ping", "", origin, id)
	case "options":
		return rawRequest("OPTIONS", "/machine/"+p, "", origin, id)
	case "create":
		d := w.devs[o.Dev]
		return rawRequest("POST", "/machine", jsonBody("Algorithm", d.Alg, "AlgorithmKey", d.Type, "BaseDerivativeKey", d.BDK, "KeySerialNumber", d.KSN), origin, id)
	case "get":
		return rawRequest("GET", "/machine/"+p, "", origin, id)
	case "list":
		return rawRequest("GET", "/machines", "", origin, id)
	case "next":
		return rawRequest("POST", "/generate_ksn/"+p, "", origin, id)
	case "epin":
		return rawRequest("POST", "/encrypt_pin/"+p, jsonBody("Pin", o.Pin, "Pan", o.Pan, "Format", o.Fmt), origin, id)
	case "dpin":
		return rawRequest("POST", "/decrypt_pin/"+p, jsonBody("Encrypted", o.Data, "Pan", o.Pan, "Format", o.Fmt), origin, id)
	case "mac":
		return rawRequest("POST", "/generate_mac/"+p, jsonBody("Action", o.Act, "Data", o.Data, "MacType", o.Mac), origin, id)
	case "edata":
		return rawRequest("POST", "/encrypt_data/"+p, jsonBody("Action", o.Act, "Data", o.Data, "Iv", o.IV), origin, id)
	case "ddata":
		return rawRequest("POST", "/decrypt_data/"+p, jsonBody("Action", o.Act, "Data", o.Data, "Iv", o.IV), origin, id)
	}
	return []byte("GET / HTTP/1.1\r\n\r\n")
}

// ---- one REST operation ----------------------------------------------------

type copyDone struct {
	done bool
	h    *hop
	got  bool // the client received the answer
}

type anyDone struct{ cs []*copyDone }

func (a anyDone) Ready() bool {
	all := true
	for _, c := range a.cs {
		if c.done && c.got {
			return true
		}
		if !c.done {
			all = false
		}
	}
	return all
}

func (w *world) restOp(ti, oi int, o Op) *hop {
	h := &hop{task: ti, op: oi, kind: o.K, a: o, spec: o.Dev, rest: true}
	w.resolve(h, ti, &h.a)
	if h.kind == "skip" {
		return h
	}
	o = h.a
	n := o.Net
	if n == nil {
		n = &Net{}
	}
	raw := w.buildRequest(o, w.ikOf(o), fmt.Sprintf("r%d-%d", ti, oi))
	for try := 0; ; try++ {
		var cs []*copyDone
		var last *hop
		lossy := n.DropResp || n.RDie
		for k := 0; k <= n.Dup; k++ {
			if n.DropReq && (k == 0) && try == 0 {
				w.res.Faults["request lost"]++
				continue
			}
			if k > 0 {
				w.res.Faults["request duplicated"]++
			}
			cd := &copyDone{}
			cs = append(cs, cd)
			delay := n.Delay
			if k > 0 {
				delay = n.DupDelay
			}
			fate := *n
			if try > 0 {
				fate = Net{Origin: n.Origin}
				delay, lossy = 0, false
			}
			if delay > 0 {
				w.res.Faults["request delayed"]++
			}
			drop := lossy && k == 0
			simrt.Spawn(fmt.Sprintf("conn t%d.%d", ti, oi), false, func() {
				if delay > 0 {
					simrt.Sleep(delay)
				}
				cd.h = w.serveConn(ti, oi, o, raw, &fate, h)
				if drop {
					w.res.Faults["response lost"]++
				} else {
					cd.got = true
				}
				cd.done = true
			})
		}
		if len(cs) > 0 {
			simrt.BlockUntil(anyDone{cs}, simrt.Now()+100*sec, "response")
		}
		for _, c := range cs {
			if c.done && c.got && c.h != nil {
				last = c.h
				break
			}
		}
		if last != nil {
			return last
		}
		answered := false
		for _, c := range cs {
			if c.done {
				answered = true
			}
		}
		if len(cs) > 0 && !answered {
			w.unanswered = append(w.unanswered, fmt.Sprintf("task%d.%d %s", ti, oi, o.K))
			return h
		}
		if try >= n.Retry {
			h.incomp = true
			return h
		}
		w.res.Faults["request retried"]++
	}
}

// serveConn is the server side of one connection: what net/http does around
// the handler.
func (w *world) serveConn(ti, oi int, o Op, raw []byte, n *Net, proto *hop) *hop {
	conn, bytesIn := deliver(raw, n, w.res)
	if n.RDie {
		w.res.Faults["client gone before the response"]++
	}
	e := interpret(bytesIn, conn.dies)
	c := &opCtx{fault: o.Fault}
	simrt.Cur().Data = c
	h := &hop{task: ti, op: oi, kind: e.kind, rest: true, a: e.a, ik: e.ik, spec: -1, refHop: proto.refHop, jsonTrip: true, lax: e.lax}
	h.a.K = e.kind
	if e.kind == "create" && !e.bad {
		for i, d := range w.devs {
			if w.regs[i] != nil && d.Alg == e.reg.Alg && d.Type == e.reg.Type && d.BDK == e.reg.BDK && d.KSN == e.reg.KSN {
				h.spec = i
				h.ik = w.iks[i]
				break
			}
		}
		if h.spec < 0 {
			w.devs = append(w.devs, e.reg) // corrupted registration
			w.addReg(e.reg)
			h.spec = len(w.devs) - 1
			h.ik = w.iks[h.spec]
		}
	}
	if string(bytesIn) != string(raw) {
		h.refHop = nil
	}
	h.call = w.tick()
	h.t0 = simrt.Now()
	w.hist = append(w.hist, h)
	cap := &capture{hdr: http.Header{}, n: n, w: w, dead: n.RDie}
	br := bufio.NewReader(conn)
	req, err := http.ReadRequest(br)
	if err != nil {
		if _, dead := err.(connErr); !dead && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			// net/http itself answers 400
			cap.WriteHeader(400)
		}
		h.incomp = true
		h.kind = "none"
		h.ret = w.tick()
		return h
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if n.RDie {
		cancel()
	}
	req = req.WithContext(ctx)
	req.RemoteAddr = "10.0.0.1:1"
	hs := simrt.Now()
	pan := w.guard(func() { w.h.ServeHTTP(cap, req) })
	h.faulted = c.fired
	h.storeAcc = c.stores > 0
	h.t1 = simrt.Now()
	if simrt.Aborting() {
		return h
	}
	h.ret = w.tick()
	if pan != "" {
		w.res.add("C09", "handler-panic", fmt.Sprintf("the handler crashed (%s) on %.300q", pan, bytesIn))
		w.trace("panic %s", pan)
		h.incomp = true
		h.ret = 1 << 60
		return h
	}
	if !cap.wroteHdr {
		if cap.dead || ctx.Err() != nil {
			h.incomp = true
			h.ret = 1 << 60
			return h
		}
		cap.WriteHeader(200)
	}
	// delay not caused by this client
	from := hs
	if conn.lastAt > from {
		from = conn.lastAt
	}
	if cap.first-from > 2*sec && !conn.stall {
		w.lag = append(w.lag, lagRec{fmt.Sprintf("task%d.%d %s", ti, oi, e.line), cap.first - from})
	}
	if cap.failed {
		h.incomp = true
		h.ret = 1 << 60
		return h
	}
	w.parse(h, cap, c, e, bytesIn)
	return h
}

func (w *world) addReg(d Dev) {
	w.regs = append(w.regs, nil)
	w.iks = append(w.iks, "")
	i := len(w.regs) - 1
	if r, err := newRef(d); err == nil {
		w.regs[i] = r
		w.iks[i] = r.IKHex()
	}
	w.markOdd()
}

type wireView = server.Machine

type wire struct {
	IK        *string
	Machine   *wireView
	Machines  *[]*wireView
	KSN       *string
	Encrypted *string
	Decrypted *string
	Generated *string
	Data      *string
	Error     json.RawMessage
}

// parse turns a captured response into the outcome of the operation and
// checks what can be said about the response alone.
func (w *world) parse(h *hop, c *capture, cx *opCtx, e eff, bytesIn []byte) {
	body := c.body.Bytes()
	where := func() string {
		return fmt.Sprintf("%.200q -> %d %.200q", bytesIn, c.code, body)
	}
	ct := c.sent.Get("Content-Type")
	isJSON := strings.Contains(ct, "json")
	if w.secrets != nil {
		w.secrets.response(w.res, c, e.kind, where)
	}
	two := c.code >= 200 && c.code < 300
	// origin echo
	if got := c.sent.Get("Access-Control-Allow-Origin"); got != "" && got != e.origin {
		w.res.add("C13", "origin", fmt.Sprintf("the response carries the origin %q of another request; its own is %q: %s", got, e.origin, where()))
	}
	if strings.HasPrefix(e.origin, "https://") && two && e.kind != "" && e.kind != "none" && c.sent.Get("Access-Control-Allow-Origin") == "" {
		w.res.add("C13", "origin-lost", "the response does not carry the origin of its own request: "+where())
	}
	if c.code < 100 || c.code > 599 {
		w.res.add("C09", "response", "malformed response status: "+where())
	}
	if cl := c.sent.Get("Content-Length"); cl != "" {
		if n, err := strconv.Atoi(cl); err != nil || n != len(body) {
			w.res.addAll([]string{"C09", "C10"}, "response-length", "content length does not match the body: "+where())
		}
	}
	var doc wire
	jsonOK := false
	if isJSON || (e.kind != "" && e.kind != "ping" && e.kind != "options" && e.kind != "none") {
		dec := json.NewDecoder(bytes.NewReader(body))
		if err := dec.Decode(&doc); err == nil {
			if _, err := dec.Token(); err == io.EOF {
				jsonOK = true
			}
		}
	}
	if isJSON && !jsonOK {
		w.res.addAll([]string{"C09", "C10"}, "response-json", "the response is not one JSON document: "+where())
	}
	switch e.kind {
	case "":
		if two {
			w.res.addAll([]string{"C09", "C10"}, "unroutable-success", "a request that addresses no operation was answered as a success: "+where())
		}
		h.kind = "none"
		return
	case "ping":
		if !two || string(body) != "PONG" {
			w.res.add("C10", "ping", "ping: "+where())
		}
		h.ok = two
		return
	case "options":
		h.ok = two
		return
	}
	errText := ""
	if len(doc.Error) > 0 && string(doc.Error) != "null" {
		var s string
		if json.Unmarshal(doc.Error, &s) == nil {
			errText = s
		} else {
			errText = "\x00" + string(doc.Error)
		}
	}
	var results []string
	put := func(k string, set bool) {
		if set {
			results = append(results, k)
		}
	}
	put("ik", doc.IK != nil && *doc.IK != "")
	put("machine", doc.Machine != nil)
	put("machines", doc.Machines != nil && len(*doc.Machines) > 0)
	put("ksn", doc.KSN != nil && *doc.KSN != "")
	put("encrypted", doc.Encrypted != nil && *doc.Encrypted != "")
	put("decrypted", doc.Decrypted != nil && *doc.Decrypted != "")
	put("generated", doc.Generated != nil && *doc.Generated != "")
	put("data", doc.Data != nil && *doc.Data != "")
	sort.Strings(results)
	h.respFields = results

	// what the service said on behalf of this request
	var prim *innerCall
	for i := range cx.inner {
		if cx.inner[i].kind == e.kind {
			prim = &cx.inner[i]
		}
	}
	if e.bad {
		if two {
			w.res.addAll([]string{"C09", "C10"}, "bad-body-success", "a request with an unreadable body was answered as a success: "+where())
		}
		if len(cx.inner) > 0 {
			for _, ic := range cx.inner {
				if ic.kind == "create" || ic.kind == "next" || ic.kind == "del" {
					w.res.add("C09", "bad-body-effect", "a request with an unreadable body reached the service: "+where())
				}
			}
		}
	}
	if !two {
		if !jsonOK || errText == "" {
			w.res.add("C10", "error-text", "a failed operation was answered without a JSON error text: "+where())
		} else if strings.HasPrefix(errText, "\x00") && (errText == "\x00{}" || errText == "\x00\"\"") {
			w.res.add("C10", "error-text", "a failed operation was answered without an error text: "+where())
		}
		if len(results) > 0 {
			w.res.addAll([]string{"C10", "C07"}, "error-with-result", fmt.Sprintf("a failed operation was answered with result fields %v: %s", results, where()))
		}
		if prim != nil && prim.err == nil && !e.bad {
			w.res.add("C10", "success-as-failure", "an operation that succeeded was answered as a failure: "+where())
		}
	} else {
		if errText != "" {
			w.res.add("C10", "success-with-error", "a 2xx response carries an error: "+where())
		}
		if prim != nil && prim.err != nil {
			w.res.add("C10", "failure-as-success", fmt.Sprintf("an operation that failed (%v) was answered as a success: %s", prim.err, where()))
		}
	}
	if e.bad {
		h.kind = "none"
		return
	}
	h.ok = two && errText == ""
	if !h.ok {
		h.err = strings.TrimPrefix(errText, "\x00")
		l := strings.ToLower(h.err)
		h.exists = strings.Contains(l, "already exist")
		h.notFound = strings.Contains(l, "not found")
		if h.err == "" {
			h.err = "(no text)"
		}
		if two && prim != nil && prim.err != nil {
			classifyErr(h, prim.err)
		}
		return
	}
	missing := func(what string) {
		if prim == nil || prim.err == nil {
			w.res.add("C10", "incomplete", "a success without its result ("+what+"): "+where())
		}
	}
	str := func(p *string, what string) {
		if p == nil {
			missing(what)
			return
		}
		h.str = *p
	}
	switch e.kind {
	case "create":
		if doc.Machine == nil || doc.IK == nil || *doc.IK == "" {
			missing("ik and machine")
		}
		if doc.IK != nil {
			h.ikOut = *doc.IK
		}
		h.view = snap(doc.Machine)
	case "get":
		if doc.Machine == nil {
			missing("machine")
		}
		h.view = snap(doc.Machine)
	case "list":
		if doc.Machines == nil {
			// null is an empty listing
			break
		}
		for _, m := range *doc.Machines {
			if m == nil {
				h.nilView = true
				continue
			}
			h.views = append(h.views, snap(m))
		}
	case "next":
		str(doc.KSN, "ksn")
	case "epin":
		str(doc.Encrypted, "encrypted")
	case "dpin":
		str(doc.Decrypted, "decrypted")
	case "mac":
		str(doc.Generated, "generated")
	case "edata":
		str(doc.Encrypted, "encrypted")
	case "ddata":
		str(doc.Data, "data")
	}
	if prim != nil && prim.err != nil {
		// answered as a success although it failed: the service outcome counts
		h.ok = false
		classifyErr(h, prim.err)
		h.view, h.views, h.str = nil, nil, ""
	}
}
