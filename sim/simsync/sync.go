// Package simsync replaces package sync in the instrumented code. Each type
// decides who waits by the simulator and keeps the real primitive (always
// uncontended) for the happens-before edges a -race build must see.
package simsync

import (
	"sync"

	"verif/simrt"
)

type Locker = sync.Locker

// Mutex ---------------------------------------------------------------------

type Mutex struct {
	real  sync.Mutex
	held  bool
	epoch uint64
}

//go:norace
func (m *Mutex) fresh() {
	if m.epoch != simrt.Epoch {
		m.epoch = simrt.Epoch
		if m.held {
			m.real = sync.Mutex{}
			m.held = false
		}
	}
}

type mutexW struct{ m *Mutex }

//go:norace
func (w mutexW) Ready() bool { return !w.m.held }

//go:norace
func (m *Mutex) Lock() {
	m.fresh()
	if simrt.Aborting() {
		return
	}
	if simrt.Active() {
		for m.held {
			simrt.Block(mutexW{m}, "Mutex.Lock")
		}
	}
	m.real.Lock()
	m.held = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	m.fresh()
	if simrt.Aborting() {
		return true
	}
	if m.held {
		return false
	}
	m.held = true
	m.real.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.fresh()
	if simrt.Aborting() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.real.Unlock()
}

// RWMutex -------------------------------------------------------------------

type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool
	wwait   int
	epoch   uint64
}

//go:norace
func (m *RWMutex) fresh() {
	if m.epoch != simrt.Epoch {
		m.epoch = simrt.Epoch
		if m.readers != 0 || m.writer || m.wwait != 0 {
			m.real = sync.RWMutex{}
			m.readers, m.writer, m.wwait = 0, false, 0
		}
	}
}

type rdW struct{ m *RWMutex }
type wrW struct{ m *RWMutex }

//go:norace
func (w rdW) Ready() bool { return !w.m.writer && w.m.wwait == 0 }

//go:norace
func (w wrW) Ready() bool { return !w.m.writer && w.m.readers == 0 }

//go:norace
func (m *RWMutex) RLock() {
	m.fresh()
	if simrt.Aborting() {
		return
	}
	if simrt.Active() {
		for m.writer || m.wwait > 0 {
			simrt.Block(rdW{m}, "RWMutex.RLock")
		}
	}
	m.readers++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if simrt.Aborting() {
		return true
	}
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.fresh()
	if simrt.Aborting() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.readers--
}

//go:norace
func (m *RWMutex) Lock() {
	m.fresh()
	if simrt.Aborting() {
		return
	}
	if simrt.Active() {
		if m.writer || m.readers > 0 {
			m.wwait++
			for m.writer || m.readers > 0 {
				simrt.Block(wrW{m}, "RWMutex.Lock")
			}
			m.wwait--
		}
	}
	m.real.Lock()
	m.writer = true
}

//go:norace
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if simrt.Aborting() {
		return true
	}
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.fresh()
	if simrt.Aborting() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.real.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once ----------------------------------------------------------------------

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

// WaitGroup -----------------------------------------------------------------

type WaitGroup struct {
	real  sync.WaitGroup
	n     int
	epoch uint64
}

//go:norace
func (g *WaitGroup) fresh() {
	if g.epoch != simrt.Epoch {
		g.epoch = simrt.Epoch
		if g.n != 0 {
			g.real = sync.WaitGroup{}
			g.n = 0
		}
	}
}

type wgW struct{ g *WaitGroup }

//go:norace
func (w wgW) Ready() bool { return w.g.n == 0 }

//go:norace
func (g *WaitGroup) Add(d int) {
	g.fresh()
	if simrt.Aborting() {
		return
	}
	if g.n+d < 0 {
		panic("sync: negative WaitGroup counter")
	}
	g.n += d
	g.real.Add(d)
}

func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	g.fresh()
	if simrt.Aborting() {
		return
	}
	if simrt.Active() {
		for g.n > 0 {
			simrt.Block(wgW{g}, "WaitGroup.Wait")
		}
	}
	g.real.Wait()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	w := func() { defer g.Done(); f() }
	simrt.BeforeGo()
	go simrt.Wrap(w)()
	simrt.AfterGo()
}

// Cond ----------------------------------------------------------------------

type Cond struct {
	L     Locker
	queue []*condW
}

type condW struct{ woken bool }

//go:norace
func (w *condW) Ready() bool { return w.woken }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	w := &condW{}
	c.queue = append(c.queue, w)
	c.L.Unlock()
	simrt.Block(w, "Cond.Wait")
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if len(c.queue) > 0 {
		c.queue[0].woken = true
		c.queue = c.queue[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for _, w := range c.queue {
		w.woken = true
	}
	c.queue = nil
}

// Pool ----------------------------------------------------------------------

// Pool hands out the most recently returned object, the case that reveals
// sharing mistakes.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	epoch uint64

	listed   bool
	listedIn uint64
}

//go:norace
func (p *Pool) Get() any {
	if p.epoch != simrt.Epoch {
		p.epoch = simrt.Epoch
		p.items = nil
	}
	p.mu.Lock()
	p.mu.Unlock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if p.epoch != simrt.Epoch {
		p.epoch = simrt.Epoch
		p.items = nil
	}
	p.mu.Lock()
	p.mu.Unlock()
	if filledEpoch != simrt.Epoch {
		filledEpoch = simrt.Epoch
		filled = nil
	}
	if !p.listed || p.listedIn != simrt.Epoch {
		p.listed, p.listedIn = true, simrt.Epoch
		filled = append(filled, p)
	}
	p.items = append(p.items, x)
}

var (
	filled      []*Pool // pools that hold something
	filledEpoch uint64
)

// DropPools empties every pool, as the garbage collector does.
//
//go:norace
func DropPools() {
	for i, p := range filled {
		p.items, p.listed = nil, false
		filled[i] = nil
	}
	filled = filled[:0]
}

// Map -----------------------------------------------------------------------

type mapEnt struct {
	k, v any
}

// Map keeps insertion order; each call is atomic.
type Map struct {
	mu   sync.Mutex
	ents []mapEnt
}

//go:norace
func (m *Map) find(k any) int {
	for i := range m.ents {
		if m.ents[i].k == k {
			return i
		}
	}
	return -1
}

//go:norace
func (m *Map) sync() { m.mu.Lock(); m.mu.Unlock() }

//go:norace
func (m *Map) Load(k any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		return m.ents[i].v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:norace
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		o := m.ents[i].v
		m.ents[i].v = v
		return o, true
	}
	m.ents = append(m.ents, mapEnt{k, v})
	return nil, false
}

//go:norace
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		return m.ents[i].v, true
	}
	m.ents = append(m.ents, mapEnt{k, v})
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	if i := m.find(k); i >= 0 {
		v := m.ents[i].v
		m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
		return v, true
	}
	return nil, false
}

//go:norace
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:norace
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if i := m.find(k); i >= 0 && m.ents[i].v == o {
		m.ents[i].v = n
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sync()
	if i := m.find(k); i >= 0 && m.ents[i].v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() { m.sync(); m.ents = nil }

//go:norace
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	snap := append([]mapEnt(nil), m.ents...)
	for i := len(snap) - 1; i > 0 && simrt.Active(); i-- {
		j := simrt.EnvRand(i + 1)
		snap[i], snap[j] = snap[j], snap[i]
	}
	for _, e := range snap {
		if v, ok := m.Load(e.k); ok {
			if !f(e.k, v) {
				return
			}
		}
	}
}
