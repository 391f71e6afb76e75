package sim

import (
	"errors"
	"fmt"
	"strings"

	"github.com/moov-io/base/log"
	"github.com/moov-io/dukpt/pkg/server"

	"verif/ref"
	"verif/simrt"
)

// view is a snapshot of a machine view.
type view struct {
	Alg, Type, BDK, KSN, IK, Cur, TK string
}

func snap(m *server.Machine) *view {
	if m == nil {
		return nil
	}
	return &view{m.Algorithm, m.AlgorithmKey, m.BaseDerivativeKey, m.KeySerialNumber, m.InitialKey, m.CurrentKSN, m.TransactionKey}
}

func (v *view) String() string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("{reg %s ik %s ksn %s tk %s}", v.KSN, v.IK, v.Cur, v.TK)
}

// innerCall is one call the handler made on the service.
type innerCall struct {
	kind string
	err  error
}

// opCtx travels with the task (or server task) executing an operation.
type opCtx struct {
	fault    string // injected
	fired    bool
	stores   int // store mutations accepted
	inner    []innerCall
	clientOp int
}

func curCtx() *opCtx {
	if t := simrt.Cur(); t != nil {
		if c, ok := t.Data.(*opCtx); ok {
			return c
		}
	}
	return nil
}

// hop is one operation of the history.
type hop struct {
	task, op   int
	kind       string
	rest       bool
	ik         string
	spec       int // create: index of the registration
	call, ret  int64
	t0, t1     int64
	ok         bool
	err        string
	exists     bool // the error says it already exists
	notFound   bool
	str        string
	view       *view
	ikOut      string
	views      []*view
	nilView    bool
	a          Op // effective arguments
	faulted    bool
	lax        bool // the request was unusual enough to be refused
	incomp     bool // no answer: may or may not have taken effect
	storeAcc   bool
	partial    string
	jsonTrip   bool
	respFields []string
	refPin     string // plaintext behind the ciphertext of a decryption
	refHop     *hop
}

func (h *hop) String() string {
	s := fmt.Sprintf("[%d,%d] task%d.%d %s", h.call, h.ret, h.task, h.op, h.kind)
	if h.rest {
		s += "(rest)"
	}
	if h.kind == "create" {
		s += fmt.Sprintf(" reg#%d", h.spec)
	} else if h.ik != "" {
		s += " ik " + short(h.ik)
	}
	switch h.kind {
	case "epin":
		s += fmt.Sprintf(" pin=%s pan=%s fmt=%s", h.a.Pin, h.a.Pan, h.a.Fmt)
	case "dpin":
		s += fmt.Sprintf(" ct=%s pan=%s fmt=%s", h.a.Data, h.a.Pan, h.a.Fmt)
	case "mac":
		s += fmt.Sprintf(" data=%.24q act=%s mac=%s", h.a.Data, h.a.Act, h.a.Mac)
	case "edata", "ddata":
		s += fmt.Sprintf(" data=%.40q act=%s iv=%s", h.a.Data, h.a.Act, h.a.IV)
	}
	if h.faulted {
		s += " fault"
	}
	switch {
	case h.incomp:
		s += " -> no answer"
	case h.ok:
		s += " -> ok"
		if h.view != nil {
			s += " " + h.view.String()
		}
		if h.str != "" {
			s += " " + fmt.Sprintf("%.64q", h.str)
		}
		if h.kind == "list" {
			for _, v := range h.views {
				s += " " + v.String()
			}
		}
	default:
		s += " -> error " + fmt.Sprintf("%.80q", h.err)
	}
	return s
}

func short(s string) string {
	if len(s) > 8 {
		return s[:8]
	}
	return s
}

type held struct {
	p    *server.Machine
	s    view
	task int
	op   int
}

// heldList is a listing somebody holds.
type heldList struct {
	l, was   []*server.Machine
	task, op int
}

type world struct {
	secrets    *secrets
	spec       *Spec
	devs       []Dev
	nReg       int
	res        *RunResult
	regs       []*ref.Dev // per Spec.Devs; nil when malformed
	iks        []string   // per Spec.Devs
	svc        server.Service
	repo       *faultRepo
	h          handler
	ev         int64
	hist       []*hop
	held       []*held
	heldLists  []*heldList
	tasks      [][]*opRes // per task per op
	inputs     map[[2]int]*server.Machine
	lists      map[[2]int][]*server.Machine
	ptrs       map[[2]int]*server.Machine
	noScrib    bool
	lag        []lagRec
	unanswered []string
	origins    []string
	ready      bool
}

type lagRec struct {
	what string
	ns   int64
}

// opRes is what the client of an operation received.
type opRes struct {
	hop *hop
}

func (w *world) tick() int64 { w.ev++; return w.ev }

// ---- fault-injecting store -------------------------------------------------

var errStore = errors.New("simulated: store refuses")

type faultRepo struct {
	server.Repository
	w *world
}

func (r *faultRepo) hit(kind string) bool {
	c := curCtx()
	if c != nil && c.fault == kind {
		if !c.fired {
			r.w.res.Faults["store error ("+kind+")"]++
		}
		c.fired = true
		return true
	}
	return false
}

func (r *faultRepo) acc() {
	if c := curCtx(); c != nil {
		c.stores++
	}
}

func (r *faultRepo) StoreMachine(m *server.Machine) error {
	if r.hit("store") {
		return errStore
	}
	err := r.Repository.StoreMachine(m)
	if err == nil {
		r.acc()
	}
	return err
}

func (r *faultRepo) FindMachine(ik string) (*server.Machine, error) {
	if r.hit("find") {
		return nil, errStore
	}
	return r.Repository.FindMachine(ik)
}

func (r *faultRepo) DeleteMachine(ik string) error {
	if r.hit("delete") {
		return errStore
	}
	err := r.Repository.DeleteMachine(ik)
	if err == nil {
		r.acc()
	}
	return err
}

// ---- recording proxy between handler and service ---------------------------

type proxy struct{ server.Service }

func note(kind string, err error) {
	if c := curCtx(); c != nil {
		c.inner = append(c.inner, innerCall{kind, err})
	}
}

func (p proxy) CreateMachine(m *server.Machine) error {
	err := p.Service.CreateMachine(m)
	note("create", err)
	return err
}
func (p proxy) GetMachine(ik string) (*server.Machine, error) {
	m, err := p.Service.GetMachine(ik)
	note("get", err)
	return m, err
}
func (p proxy) GetMachines() []*server.Machine {
	m := p.Service.GetMachines()
	note("list", nil)
	return m
}
func (p proxy) MakeNextKSN(ik string) (*server.Machine, error) {
	m, err := p.Service.MakeNextKSN(ik)
	note("next", err)
	return m, err
}
func (p proxy) DeleteMachine(ik string) error {
	err := p.Service.DeleteMachine(ik)
	note("del", err)
	return err
}
func (p proxy) EncryptPin(ik, pin, pan, format string) (string, error) {
	s, err := p.Service.EncryptPin(ik, pin, pan, format)
	note("epin", err)
	return s, err
}
func (p proxy) DecryptPin(ik, c, pan, format string) (string, error) {
	s, err := p.Service.DecryptPin(ik, c, pan, format)
	note("dpin", err)
	return s, err
}
func (p proxy) GenerateMac(ik, data, action, mac string) (string, error) {
	s, err := p.Service.GenerateMac(ik, data, action, mac)
	note("mac", err)
	return s, err
}
func (p proxy) EncryptData(ik, data, action, iv string) (string, error) {
	s, err := p.Service.EncryptData(ik, data, action, iv)
	note("edata", err)
	return s, err
}
func (p proxy) DecryptData(ik, c, action, iv string) (string, error) {
	s, err := p.Service.DecryptData(ik, c, action, iv)
	note("ddata", err)
	return s, err
}

// ---- setup -----------------------------------------------------------------

func newWorld(s *Spec, res *RunResult) *world {
	w := &world{spec: s, res: res, secrets: newSecrets(s), inputs: map[[2]int]*server.Machine{}, lists: map[[2]int][]*server.Machine{}, ptrs: map[[2]int]*server.Machine{}}
	w.devs = append([]Dev(nil), s.Devs...)
	w.nReg = len(s.Devs)
	for _, d := range s.Devs {
		rd, err := ref.NewDev(d.Alg, d.Type, d.BDK, d.KSN)
		if err != nil {
			rd = nil
		}
		w.regs = append(w.regs, rd)
		if rd != nil {
			w.iks = append(w.iks, rd.IKHex())
		} else {
			w.iks = append(w.iks, "")
		}
	}
	w.markOdd()
	return w
}

// markOdd marks the identities some registration of which names a key type
// that does not fit.
func (w *world) markOdd() {
	odd := map[string]bool{}
	for i, d := range w.devs {
		if w.regs[i] != nil && d.Alg == "aes" && d.Type != map[int]string{16: "AES128", 24: "AES192", 32: "AES256"}[hexLen(d.BDK)] {
			odd[w.iks[i]] = true
		}
	}
	for i := range w.regs {
		if w.regs[i] != nil && odd[w.iks[i]] {
			w.regs[i].Odd = true
		}
	}
}

// start starts the service under test.
func (w *world) start() {
	logger := log.NewNopLogger()
	if w.secrets != nil {
		logger = w.secrets.capture()
	}
	w.repo = &faultRepo{server.NewRepositoryInMemory(logger), w}
	w.svc = server.NewService(w.repo)
	w.h = server.MakeHTTPHandler(proxy{w.svc})
}

func baseKey(d Dev) server.BaseKey {
	return server.BaseKey{Algorithm: d.Alg, AlgorithmKey: d.Type, BaseDerivativeKey: d.BDK, KeySerialNumber: d.KSN}
}

func (w *world) ikOf(o Op) string {
	if o.Raw != "" && o.K != "raw" {
		return o.Raw // an identity that is not registered
	}
	if o.Dev >= 0 && o.Dev < len(w.iks) {
		return w.iks[o.Dev]
	}
	return "00000000000000000000000000000000"
}

func (w *world) trace(f string, a ...any) {
	if len(w.res.Trace) < 4000 {
		w.res.Trace = append(w.res.Trace, fmt.Sprintf(f, a...))
	}
}

// begin prepares the current task for one operation.
func begin(o Op) *opCtx {
	c := &opCtx{fault: o.Fault}
	simrt.Cur().Data = c
	return c
}

func classifyErr(h *hop, err error) {
	h.err = err.Error()
	h.exists = errors.Is(err, server.ErrAlreadyExists) || strings.Contains(strings.ToLower(h.err), "already exist")
	h.notFound = errors.Is(err, server.ErrNotFound) || strings.Contains(strings.ToLower(h.err), "not found")
}

// direct executes one in-process operation.
func (w *world) direct(ti, oi int, o Op) *hop {
	h := &hop{task: ti, op: oi, kind: o.K, a: o, spec: o.Dev}
	key := [2]int{ti, oi}
	var err error
	var m *server.Machine
	var ms []*server.Machine
	w.resolve(h, ti, &h.a)
	if h.kind == "skip" {
		return h
	}
	o = h.a
	if o.K != "create" && o.K != "list" {
		h.ik = w.ikOf(o)
	}
	c := begin(o)
	var in, before server.Machine
	if o.K == "create" {
		switch {
		case o.N == 1: // a literal without current key serial number
			m = &server.Machine{BaseKey: baseKey(w.devs[o.Dev])}
		case o.N == 2: // the object passed in or returned before
			m = w.inputs[[2]int{ti, o.Ref - 1}]
			if m == nil {
				m = w.ptrs[[2]int{ti, o.Ref - 1}]
			}
			if m == nil {
				m = server.NewMachine(baseKey(w.devs[o.Dev]))
			}
			h.spec = w.specOf(m)
		default:
			m = server.NewMachine(baseKey(w.devs[o.Dev]))
		}
		if h.spec >= 0 {
			h.ik = w.iks[h.spec]
		}
		before = *m
		w.inputs[key] = m
		for _, x := range w.held {
			if x.p == m {
				x.p = nil
			}
		}
	}
	h.call = w.tick()
	h.t0 = simrt.Now()
	w.hist = append(w.hist, h)
	pan := w.guard(func() {
		switch o.K {
		case "create":
			err = w.svc.CreateMachine(m)
		case "get":
			m, err = w.svc.GetMachine(h.ik)
		case "list":
			ms = w.svc.GetMachines()
		case "next":
			m, err = w.svc.MakeNextKSN(h.ik)
		case "del":
			err = w.svc.DeleteMachine(h.ik)
		case "epin":
			h.str, err = w.svc.EncryptPin(h.ik, o.Pin, o.Pan, o.Fmt)
		case "dpin":
			h.str, err = w.svc.DecryptPin(h.ik, o.Data, o.Pan, o.Fmt)
		case "mac":
			h.str, err = w.svc.GenerateMac(h.ik, o.Data, o.Act, o.Mac)
		case "edata":
			h.str, err = w.svc.EncryptData(h.ik, o.Data, o.Act, o.IV)
		case "ddata":
			h.str, err = w.svc.DecryptData(h.ik, o.Data, o.Act, o.IV)
		}
	})
	h.t1 = simrt.Now()
	h.faulted = c.fired
	h.storeAcc = c.stores > 0
	if pan != "" {
		h.ret = 1 << 60
		h.incomp = true
		w.res.add("C09", "panic", "the service crashed: "+pan+" in "+h.String())
		return h
	}
	h.ret = w.tick()
	if err != nil {
		classifyErr(h, err)
		if h.str != "" {
			h.partial = "a result together with the error"
		}
		if o.K != "create" && m != nil {
			h.partial = "a machine view together with the error"
		}
		if o.K == "create" && *m != before {
			h.partial = "the submitted object was filled in although the creation failed"
		}
		_ = in
		return h
	}
	h.ok = true
	switch o.K {
	case "create", "get", "next":
		if m == nil {
			h.nilView = true
			break
		}
		h.view = snap(m)
		if o.K == "create" {
			h.ikOut = m.InitialKey
		}
		w.ptrs[key] = m
		w.held = append(w.held, &held{m, *h.view, ti, oi})
	case "list":
		for _, x := range ms {
			if x == nil {
				h.nilView = true
				continue
			}
			h.views = append(h.views, snap(x))
			w.held = append(w.held, &held{x, *snap(x), ti, oi})
		}
		w.lists[key] = ms
		w.heldLists = append(w.heldLists, &heldList{l: ms, was: append([]*server.Machine(nil), ms...), task: ti, op: oi})
	}
	return h
}

// specOf finds the registration an object stands for.
func (w *world) specOf(m *server.Machine) int {
	for i, d := range w.devs {
		if w.regs[i] != nil && d.Alg == m.Algorithm && d.Type == m.AlgorithmKey && d.BDK == m.BaseDerivativeKey && d.KSN == m.KeySerialNumber {
			return i
		}
	}
	return -1
}

func (w *world) guard(f func()) (pan string) {
	defer func() {
		if simrt.Aborting() {
			return
		}
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	f()
	return
}

// resolve fills in the answer of an earlier operation of the task.
func (w *world) resolve(h *hop, ti int, o *Op) {
	if o.Ref == 0 || (o.K != "dpin" && o.K != "ddata") {
		return
	}
	var r *opRes
	if o.Ref-1 < len(w.tasks[ti]) {
		r = w.tasks[ti][o.Ref-1]
	}
	if r == nil || r.hop == nil || !r.hop.ok || r.hop.str == "" {
		h.kind = "skip"
		return
	}
	o.Data = r.hop.str
	h.refHop = r.hop
}

// scribble overwrites what the task holds.
func (w *world) scribble(ti int, o Op) {
	if w.noScrib {
		return
	}
	key := [2]int{ti, o.Ref - 1}
	hit := func(m *server.Machine) {
		if m == nil {
			return
		}
		for _, h := range w.held {
			if h.p == m {
				h.p = nil
			}
		}
		switch o.N % 4 {
		case 0:
			m.CurrentKSN, m.TransactionKey = "SCRIBBLE", "SCRIBBLE"
		case 1:
			*m = server.Machine{BaseKey: server.BaseKey{Algorithm: "SCRIBBLE"}}
		case 2:
			m.InitialKey, m.KeySerialNumber, m.BaseDerivativeKey = "SCRIBBLE", "SCRIBBLE", "SCRIBBLE"
		case 3:
			m.TransactionKey = "00000000000000000000000000000000"
			m.Algorithm = "aes"
			m.AlgorithmKey = "AES128"
		}
		w.res.Faults["holder scribbles over a view or input"]++
	}
	if o.K == "scribin" {
		hit(w.inputs[key])
		return
	}
	hit(w.ptrs[key])
	l := w.lists[key]
	for i := range l {
		hit(l[i])
	}
	if len(l) > 0 && o.N%2 == 0 { // appending writes beyond the length as well
		x := append(l, &server.Machine{BaseKey: server.BaseKey{Algorithm: "SCRIBBLE"}})
		_ = x
	}
	for i := range l {
		l[i] = nil
	}
	for _, h := range w.heldLists {
		if h.task == key[0] && h.op == key[1] {
			h.l = nil
		}
	}
}

// recheck compares every held view with its snapshot.
func (w *world) recheck() {
	for _, h := range w.heldLists {
		if h.l == nil {
			continue
		}
		for i := range h.l {
			if h.l[i] != h.was[i] {
				w.res.add("C08", "held-list", fmt.Sprintf("the listing returned to task%d by operation %d changed afterwards: its element %d was %s, is %s", h.task, h.op, i, snap(h.was[i]), snap(h.l[i])))
				h.l = nil
				break
			}
		}
	}
	for _, h := range w.held {
		if h.p == nil {
			continue
		}
		if now := *snap(h.p); now != h.s {
			w.res.add("C08", "held-view", fmt.Sprintf("the view returned to task%d by operation %d changed afterwards: was %s, is %s", h.task, h.op, &h.s, &now))
			w.res.Probes["held view changed"]++
			return
		}
	}
}
