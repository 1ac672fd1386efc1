// Package simsync replaces package sync in the instrumented code.  Under the
// simulator its operations are scheduling points and ordering edges for the race
// detector; blocking hands the processor to another task.
package simsync

import (
	"sync"
	"unsafe"

	"verif.local/sim/simrt"
)

type Locker = sync.Locker

// Map is the real sync.Map: it never blocks.
type Map = sync.Map

type Mutex struct {
	locked bool
	_      [7]byte
}

//go:norace
func (m *Mutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.Point()
	for m.locked {
		if !simrt.BlockOn(unsafe.Pointer(m)) {
			panic("simsync: deadlock: Lock of a locked mutex with no other task running")
		}
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Point()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

type RWMutex struct {
	w       bool
	readers int
	waiting int
	_       [8]byte
	racer   uint64
}

//go:norace
func (m *RWMutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.Point()
	m.waiting++
	for m.w || m.readers > 0 {
		if !simrt.BlockOn(unsafe.Pointer(m)) {
			panic("simsync: deadlock: Lock of a locked rwmutex with no other task running")
		}
	}
	m.waiting--
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.racer))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Point()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.racer))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.w = false
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	if simrt.Aborting() {
		return
	}
	simrt.Point()
	// A waiting writer blocks new readers, as in package sync.
	for m.w || m.waiting > 0 {
		if !simrt.BlockOn(unsafe.Pointer(m)) {
			panic("simsync: deadlock: RLock of a locked rwmutex with no other task running")
		}
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.racer))
	m.readers--
	simrt.WakeAll(unsafe.Pointer(m))
	simrt.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
	r    uint64
}

//go:norace
func (o *Once) isDone() bool {
	simrt.Point()
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.r))
		return true
	}
	return false
}

//go:norace
func (o *Once) setDone() {
	o.done = true
	simrt.RaceRelease(unsafe.Pointer(&o.r))
}

func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type WaitGroup struct {
	n int
	r uint64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if simrt.Aborting() {
		return
	}
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.r))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.WakeAll(unsafe.Pointer(w))
	}
	simrt.Point()
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	if simrt.Aborting() {
		return
	}
	simrt.Point()
	for w.n > 0 {
		if !simrt.BlockOn(unsafe.Pointer(w)) {
			panic("simsync: deadlock: WaitGroup.Wait with no other task running")
		}
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.r))
}

type Cond struct {
	L Locker
	x uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	if !simrt.BlockOn(unsafe.Pointer(&c.x)) && !simrt.Aborting() {
		panic("simsync: deadlock: Cond.Wait with no other task running")
	}
	c.L.Lock()
}

func (c *Cond) Signal()    { simrt.WakeOne(unsafe.Pointer(&c.x)) }
func (c *Cond) Broadcast() { simrt.WakeAll(unsafe.Pointer(&c.x)) }

// Pool is a deterministic stack; every item handed back is handed out again,
// which is the legal behaviour most likely to expose use after Put.
type Pool struct {
	New   func() any
	items [64]any
	n     int
	r     uint64
}

//go:norace
func (p *Pool) take() any {
	simrt.Point()
	if p.n > 0 {
		p.n--
		x := p.items[p.n]
		p.items[p.n] = nil
		simrt.RaceAcquire(unsafe.Pointer(&p.r))
		return x
	}
	return nil
}

func (p *Pool) Get() any {
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&p.r))
	if p.n < len(p.items) {
		p.items[p.n] = x
		p.n++
	}
	simrt.Point()
}
