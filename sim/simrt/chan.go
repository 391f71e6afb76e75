package simrt

import (
	"iter"
	"reflect"
	"sync"
	"unsafe"
)

// An unbuffered channel whose two ends are simulated tasks needs a rendezvous
// the real channel cannot give (nobody ever parks in it); offers keeps the
// senders that wait. Everything else uses the real channel without blocking.

type offer struct {
	ch    unsafe.Pointer
	by    *Task
	val   any
	taken bool
	gone  bool
	mu    *sync.Mutex
}

type want struct {
	ch     unsafe.Pointer
	by     *Task
	val    any
	filled bool
	gone   bool
	mu     *sync.Mutex
}

var offers []*offer
var wants []*want

//go:norace
func chanReset() { offers, wants = nil, nil }

//go:norace
func hb(m *sync.Mutex) { m.Lock(); m.Unlock() }

//go:norace
func dropOffer(o *offer) {
	o.gone = true
	for i, x := range offers {
		if x == o {
			offers = append(offers[:i:i], offers[i+1:]...)
			return
		}
	}
}

//go:norace
func dropWant(o *want) {
	o.gone = true
	for i, x := range wants {
		if x == o {
			wants = append(wants[:i:i], wants[i+1:]...)
			return
		}
	}
}

// claim withdraws what else a task waits for once one of its cases is done.
//
//go:norace
func claim(by *Task, o *offer, w *want) {
	var ko []*offer
	for _, x := range offers {
		if x.by != by || x == o {
			ko = append(ko, x)
		}
	}
	var kw []*want
	for _, x := range wants {
		if x.by != by || x == w {
			kw = append(kw, x)
		}
	}
	offers, wants = ko, kw
}

//go:norace
func findOffer(p unsafe.Pointer, me *Task) *offer {
	for _, o := range offers {
		if o.ch == p && !o.taken && o.by != me {
			return o
		}
	}
	return nil
}

//go:norace
func findWant(p unsafe.Pointer, me *Task) *want {
	for _, o := range wants {
		if o.ch == p && !o.filled && o.by != me {
			return o
		}
	}
	return nil
}

func ptrOf[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func rptr[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// CaseT is one case of a select.
type CaseT interface {
	try(me *Task) bool // perform without blocking
	can(me *Task) bool // whether try would
	register(me *Task) // announce interest (unbuffered)
	unregister()
	fired() bool // completed by the other side
}

// closedOff is where a channel keeps the fact that it is closed.
var closedOff = func() uintptr {
	type words [48]byte
	c := make(chan int, 1)
	p := (*words)(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	before := *p
	close(c)
	after := *p
	for i := range before {
		if before[i] != after[i] {
			return uintptr(i)
		}
	}
	panic("simrt: cannot tell closed channels")
}()

//go:norace
func isClosed(p unsafe.Pointer) bool { return *(*byte)(unsafe.Add(p, closedOff)) != 0 }

// RecvCase receives.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
	w  *want
}

// SendCase sends.
type SendCase[T any] struct {
	ch chan<- T
	v  T
	o  *offer
}

// CR makes a receive case.
//
//go:norace
func CR[C ~chan T | ~<-chan T, T any](ch C) *RecvCase[T] {
	return &RecvCase[T]{ch: (<-chan T)(toRecv[C, T](ch))}
}

//go:norace
func toRecv[C ~chan T | ~<-chan T, T any](ch C) <-chan T {
	return *(*<-chan T)(unsafe.Pointer(&ch))
}

// CS makes a send case.
//
//go:norace
func CS[C ~chan T | ~chan<- T, T any](ch C, v T) *SendCase[T] {
	return &SendCase[T]{ch: *(*chan<- T)(unsafe.Pointer(&ch)), v: v}
}

//go:norace
func (c *RecvCase[T]) can(me *Task) bool {
	if c.ch == nil {
		return false
	}
	return len(c.ch) > 0 || cap(c.ch) == 0 && findOffer(rptr(c.ch), me) != nil || isClosed(rptr(c.ch))
}

//go:norace
func (c *RecvCase[T]) try(me *Task) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if o := findOffer(rptr(c.ch), me); o != nil {
			hb(o.mu)
			if o.val != nil {
				c.V = o.val.(T)
			}
			c.OK = true
			o.taken = true
			claim(o.by, o, nil)
			hb(o.mu)
			dropOffer(o)
			return true
		}
	}
	select {
	case v, ok := <-c.ch:
		c.V, c.OK = v, ok
		return true
	default:
	}
	return false
}

//go:norace
func (c *RecvCase[T]) register(me *Task) {
	if c.ch != nil && cap(c.ch) == 0 && c.w == nil {
		c.w = &want{ch: rptr(c.ch), by: me, mu: new(sync.Mutex)}
		hb(c.w.mu)
		wants = append(wants, c.w)
	}
}

//go:norace
func (c *RecvCase[T]) unregister() {
	if c.w != nil {
		if c.w.filled && !c.w.gone {
			hb(c.w.mu)
			if c.w.val != nil {
				c.V = c.w.val.(T)
			}
			c.OK = true
		}
		dropWant(c.w)
		c.w = nil
	}
}

//go:norace
func (c *RecvCase[T]) fired() bool { return c.w != nil && c.w.filled }

//go:norace
func (c *SendCase[T]) can(me *Task) bool {
	if c.ch == nil {
		return false
	}
	return len(c.ch) < cap(c.ch) || cap(c.ch) == 0 && findWant(rptr(c.ch), me) != nil || isClosed(rptr(c.ch))
}

//go:norace
func (c *SendCase[T]) try(me *Task) bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) == 0 {
		if w := findWant(rptr(c.ch), me); w != nil {
			hb(w.mu)
			w.val = c.v
			w.filled = true
			claim(w.by, nil, w)
			hb(w.mu)
			return true
		}
	}
	select {
	case c.ch <- c.v:
		return true
	default:
	}
	return false
}

//go:norace
func (c *SendCase[T]) register(me *Task) {
	if c.ch != nil && cap(c.ch) == 0 && c.o == nil {
		c.o = &offer{ch: rptr(c.ch), by: me, val: c.v, mu: new(sync.Mutex)}
		hb(c.o.mu)
		offers = append(offers, c.o)
	}
}

//go:norace
func (c *SendCase[T]) unregister() {
	if c.o != nil {
		if c.o.taken {
			hb(c.o.mu)
		}
		dropOffer(c.o)
		c.o = nil
	}
}

//go:norace
func (c *SendCase[T]) fired() bool { return c.o != nil && c.o.taken }

type selWaiter struct {
	cs    []CaseT
	got   int
	order []int
	me    *Task
}

// Ready tells whether a case can proceed. It performs nothing: the scheduler
// asks on behalf of the task, and only what the task itself does orders it
// after the other side.
//
//go:norace
func (s *selWaiter) Ready() bool {
	for _, c := range s.cs {
		if c.fired() || c.can(s.me) {
			return true
		}
	}
	return false
}

// settle takes the case the other side completed or performs one.
//
//go:norace
func (s *selWaiter) settle() bool {
	for i, c := range s.cs {
		if c.fired() {
			s.got = i
			return true
		}
	}
	for _, j := range s.order {
		if s.cs[j].try(s.me) {
			s.got = j
			return true
		}
	}
	return false
}

// Select performs one of the cases; -1 is the default case.
//
//go:norace
func Select(hasDef bool, cs ...CaseT) int {
	if !Active() {
		return realSelect(hasDef, cs)
	}
	s := &selWaiter{cs: cs, got: -1, me: cur}
	for i := range cs {
		s.order = append(s.order, i)
	}
	for i := len(s.order) - 1; i > 0; i-- {
		j := EnvRand(i + 1)
		s.order[i], s.order[j] = s.order[j], s.order[i]
	}
	if s.settle() {
		return s.got
	}
	if hasDef {
		return -1
	}
	for _, c := range cs {
		c.register(s.me)
	}
	for {
		Block(s, "channel operation")
		if s.settle() {
			break
		}
	}
	for _, c := range cs {
		c.unregister()
	}
	return s.got
}

// Send is ch <- v.
//
//go:norace
func Send[C ~chan T | ~chan<- T, T any](ch C, v T) {
	if !active {
		*(*chan<- T)(unsafe.Pointer(&ch)) <- v
		return
	}
	if aborting {
		return
	}
	Select(false, CS[C, T](ch, v))
}

// Recv is <-ch.
//
//go:norace
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2[C, T](ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	if !active {
		v, ok := <-toRecv[C, T](ch)
		return v, ok
	}
	c := CR[C, T](ch)
	if aborting {
		return c.V, false
	}
	Select(false, c)
	return c.V, c.OK
}

// ChanIter ranges over a channel.
//
//go:norace
func ChanIter[C ~chan T | ~<-chan T, T any](ch C) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2[C, T](ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func realSelect(hasDef bool, cs []CaseT) int {
	if aborting {
		if hasDef {
			return -1
		}
		return 0
	}
	for {
		for i, c := range cs {
			if c.try(nil) {
				return i
			}
		}
		if hasDef {
			return -1
		}
		realYield()
	}
}

// MapIter ranges over a map in an order the simulator chooses.
func MapIter[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		ks := make([]K, 0, len(m))
		for k := range m {
			ks = append(ks, k)
		}
		sortKeys(ks)
		if Active() {
			for i := len(ks) - 1; i > 0; i-- {
				j := EnvRand(i + 1)
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		for _, k := range ks {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](ks []K) {
	less := func(a, b K) bool {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		for va.IsValid() && va.Kind() == reflect.Interface {
			va = va.Elem()
		}
		for vb.IsValid() && vb.Kind() == reflect.Interface {
			vb = vb.Elem()
		}
		if !va.IsValid() || !vb.IsValid() || va.Kind() != vb.Kind() {
			return false
		}
		switch {
		case va.Kind() == reflect.String:
			return va.String() < vb.String()
		case va.CanInt():
			return va.Int() < vb.Int()
		case va.CanUint():
			return va.Uint() < vb.Uint()
		case va.CanFloat():
			return va.Float() < vb.Float()
		}
		return false
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && less(ks[j], ks[j-1]); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
}
